// Run one grammar/command line on the implementation and project the outcome.
import * as C from "@optique/core";
import { type Ast, build, type BuildOpts } from "./ast.ts";
import { encode, type Tagged } from "./value.ts";

export interface Outcome { k: "ok" | "fail" | "throw" | "crash"; v: Tagged; }
const NOV: Tagged = { k: "u", v: "" };
export const S = (s: string): Tagged => ({ k: "s", v: s });

export function tryBuild(g: Ast, o: BuildOpts): { p?: any; out?: Outcome } {
  try { return { p: build(g, o) }; } catch (e: any) {
    // Ambiguous grammars are rejected with DuplicateOptionError or a
    // duplicate-command TypeError; anything else is a crash.
    const name = e?.name ?? "", msg = String(e?.message ?? e);
    if (/duplicate/i.test(name) || /duplicate/i.test(msg)) return { out: { k: "throw", v: NOV } };
    return { out: { k: "crash", v: S("construct: " + msg) } };
  }
}
export function outcome(r: any): Outcome {
  if (r == null || typeof r !== "object" || typeof r.success !== "boolean") return { k: "crash", v: S("bad result") };
  return r.success ? { k: "ok", v: encode(r.value) } : { k: "fail", v: NOV };
}
export function runSync(p: any, argv: readonly string[]): Outcome {
  try { return outcome(C.parse(p, argv as string[])); } catch (e: any) { return { k: "crash", v: S(String(e?.message ?? e)) }; }
}
export async function runAsync(p: any, argv: readonly string[]): Promise<Outcome> {
  try { return outcome(await C.parseAsync(p, argv as string[])); } catch (e: any) { return { k: "crash", v: S(String(e?.message ?? e)) }; }
}
