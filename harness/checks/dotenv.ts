// C26: .env files.  Dotenv.tla reads texts character by character; the real
// context must define the same variables or name the same line.
import fs from "node:fs";
import path from "node:path";
import process from "node:process";
import * as C from "@optique/core";
import { bindEnv, createEnvContext } from "@optique/env";
import { runWith } from "@optique/core/facade";
import { Check } from "../lib/check.ts";
import { Rng } from "../lib/rng.ts";
import { ndjson, tlc } from "../lib/tlc.ts";

const c = new Check("C26");
const r = new Rng(c.seed * 4261 + 26);
const NAMED: Record<string, string> = { NL: "\n", CR: "\r", TAB: "\t", BOM: "\ufeff", U1: "é", U2: "😀" };
const BACK: Record<string, string> = Object.fromEntries(Object.entries(NAMED).map(([k, v]) => [v, k]));
const str = (t: string[]): string => t.map((x) => NAMED[x] ?? x).join("");
const tok = (s: string): string[] => [...s].map((x) => BACK[x] ?? x);

const NAMES = ["A", "B", "C", "_x", "A1", "export", "exporter", "NODE", "a"];
const pieces = (r: Rng): string[] => tok(r.pick(["a", "b", "1", " ", "  ", "\t", "#", " #", "'", '"', "\\", "\\n", "\\t", "\\r", "\\\\", '\\"', "\\$", "$", "$A", "$B", "$A1", "${A}", "${B}", "${", "${A", "}", "$(", "$(c1)", "$(c2 x)", ")", "`", "`c1`", "=", "x=y", "\n", "\r\n", "\r", "é", "😀", "$1", "${}", "$$A", "`c2 x`", "~", "$_x", "(c1)", "$é"]));
function value(r: Rng): string[] {
  const n = r.int(6), w = r.u();
  const body = Array.from({ length: n }, () => pieces(r)).flat();
  const inner = (q: string) => body.filter((x) => x !== q && (q !== '"' || x !== "\\" || r.bool(0.7)));
  return w < 0.4 ? body.filter((x) => x !== "NL" && x !== "CR" || r.bool(0.1)) : w < 0.65 ? ['"', ...inner('"'), ...(r.bool(0.96) ? ['"'] : [])] : w < 0.85 ? ["'", ...inner("'"), ...(r.bool(0.96) ? ["'"] : [])] : body;
}
function text(r: Rng): string[] {
  const out: string[] = r.bool(0.06) ? ["BOM"] : [];
  const eol = () => tok(r.pick(["\n", "\n", "\n", "\r\n", "\r"]));
  const ws = (p = 0.2) => r.bool(p) ? tok(r.pick([" ", "\t", "  "])) : [];
  for (let k = r.range(1, 5); k > 0; k--) {
    const w = r.u();
    if (w < 0.08) out.push(...ws(), ...eol());
    else if (w < 0.16) out.push(...ws(), "#", ...tok(r.pick([" comment", "A=1", "", "'\""])), ...eol());
    else if (w < 0.2) out.push(...tok(r.pick(["garbage", "1A=2", "=x", "export", "export A", "A B=1", "A.b=2", "export\n", "-"])), ...eol());
    else out.push(...ws(0.1), ...(r.bool(0.2) ? tok(r.pick(["export ", "export\t", "export  "])) : []), ...tok(r.pick(NAMES)), ...ws(0.1), "=", ...ws(0.15), ...value(r), ...ws(0.15), ...(r.bool(0.2) ? tok(r.pick(["# c", " # c", "#", " #"])) : []), ...(r.bool(0.95) ? eol() : []));
  }
  return out;
}
const cases: any[] = [];
// every short text over the characters that matter
const SIGMA = ["a", " ", "#", "'", '"', "\\", "$", "{", "}", "(", ")", "`", "=", "NL", "A"];
const maxLen = c.thorough ? 4 : 3;
const enumerate = (pre: string[], post: string[], sig: string[], len: number, env: any[]) => {
  const rec = (w: string[]) => { cases.push({ env, hook: cases.length % 2 === 0, subs: [[["a"], ["z"]], [[], ["e"]]], files: [{ missing: false, text: [...pre, ...w, ...post] }] }); if (w.length < len) for (const s of sig) rec([...w, s]); };
  rec([]);
};
const envA = [[["A"], ["E", "$", "a"]]];
enumerate(["a", "="], [], SIGMA, maxLen, envA);
enumerate(["a", "=", '"'], ['"', "NL"], ["a", '"', "\\", "$", "{", "}", "`", "n", "A"], maxLen, envA);
enumerate([], [], ["a", " ", "=", "#", "NL", "CR", "'", "e"], maxLen, []);
const exhaustive = cases.length, n = exhaustive + (c.thorough ? 25000 : 3000);
while (cases.length < n) {
  const g = new Rng(r.int(2 ** 31));
  const some = (names: string[], p: number) => names.filter(() => g.bool(p)).map((k) => [tok(k), tok(g.pick(["", "v", "$B", "x y", "`c1`", "\\n", "#h"]))]);
  cases.push({ env: some(NAMES, 0.25), hook: g.bool(0.6), subs: [[tok("c1"), tok(g.pick(["out", "$A", "", "a\nb"]))], ...(g.bool(0.5) ? [[tok("c2 x"), tok("two")]] : [])],
    files: Array.from({ length: g.pick([1, 1, 2, 3]) }, () => ({ missing: g.bool(0.1), text: text(g) })) });
}
const m = await tlc(c.scratch, "Dotenv", { ENTRIES: ndjson(path.join(c.scratch, "c.ndjson"), cases) }, { workers: 8 });
c.states = m.states; c.transitions = m.transitions;
process.chdir(c.scratch);
const saved = { ...process.env };
for (const row of m.rows) {
  const k = cases[row.ix - 1];
  const files = k.files.map((f: any, n: number) => {
    const p = path.join(c.scratch, k.files.length === 1 && row.ix % 4 === 0 ? ".env" : `f${n}.env`);
    if (f.missing) fs.rmSync(p, { force: true }); else fs.writeFileSync(p, str(f.text));
    return p;
  });
  const env = new Map<string, string>(k.env.map(([a, b]: any) => [str(a), str(b)]));
  const useProcess = row.ix % 7 === 0 && [...env.keys()].every((x) => !(x in saved));
  const calls: string[] = [];
  const subs = new Map<string, string>(k.subs.map(([a, b]: any) => [str(a), str(b)]));
  const list = files.length === 1 ? (files[0].endsWith("/.env") ? r.pick([true, ".env", files]) : r.pick([files[0], files, path.basename(files[0])])) : files;
  const envFile: any = k.hook ? { paths: list, substitute: (x: string) => { calls.push(x); return subs.get(x); } } : r.bool(0.5) ? list : list === true ? {} : { paths: list };
  if (useProcess) for (const [a, b] of env) process.env[a] = b;
  const before = JSON.stringify(process.env);
  let got: any, err: any, ctx: any;
  try { ctx = createEnvContext({ envFile, ...(useProcess ? {} : { source: (x: string) => env.get(x) }), ...(r.bool(0.3) ? { prefix: "P_" } : {}) }); } catch (e) { err = e; }
  const vars = new Map<string, string>(row.vars.map(([a, b]: any) => [str(a), str(b)]));
  const names = new Set([...NAMES, ...vars.keys(), ...env.keys(), "zz", "b", "e", "aa"]);
  const want = row.res.k === "ok" ? Object.fromEntries([...names].map((x) => [x, env.get(x) ?? vars.get(x)])) : null;
  if (ctx) got = Object.fromEntries([...names].map((x) => [x, ctx.source(x)]));
  c.traces++;
  const bad = row.res.k === "ok"
    ? err !== undefined || JSON.stringify(got) !== JSON.stringify(want)
    : !(err instanceof SyntaxError) || !err.message.includes(path.basename(files[row.res.file - 1])) || !new RegExp(`line ${row.res.line}\\b`).test(err.message);
  const wc = row.calls.map(str);
  const badCalls = JSON.stringify(calls) !== JSON.stringify(wc);
  const touched = JSON.stringify(process.env) !== before;
  if (useProcess) for (const a of env.keys()) delete process.env[a];
  if (bad || badCalls || touched) {
    c.violation(`${JSON.stringify(k.files.map((f: any) => f.missing ? null : str(f.text)))} ${JSON.stringify([...env])}`, { what: bad ? "variables" : badCalls ? "hook calls" : "environment", texts: k.files.map((f: any) => f.missing ? null : str(f.text)), env: [...env], hook: k.hook, want: want ?? row.res, got: got ?? String(err), calls, wantCalls: wc });
    continue;
  }
  c.sample({ texts: k.files.map((f: any) => str(f.text)), outcome: row.res, vars: [...vars] }, 5);
  // what a bound parser sees
  if (ctx && row.ix % 5 === 0) {
    const nm = r.pick([...names].filter((x) => x)), p = bindEnv(C.option("--o", C.string()), { context: ctx, key: nm.startsWith(ctx.prefix) ? nm.slice(ctx.prefix.length) : nm, parser: C.string(), default: "dflt" });
    const key = nm.startsWith(ctx.prefix) ? nm : ctx.prefix + nm, w = env.get(key) ?? vars.get(key) ?? "dflt";
    c.traces++;
    const v = await runWith(C.object({ v: p }), "prog", [ctx], { args: [], onError: () => "failed" as any, stderr() {} } as any).catch((e: unknown) => String(e));
    if (!useProcess && JSON.stringify(v) !== JSON.stringify({ v: w })) c.violation(`bound ${key} ${JSON.stringify(k.files)}`, { what: "bound", key, want: w, got: v });
  }
}
c.extra.exhaustive = exhaustive;
c.finish();
