// C25: lifecycle hooks.  Every behaviour of Hooks.tla is run on runProgram().
import { AsyncLocalStorage } from "node:async_hooks";
import fs from "node:fs";
import path from "node:path";
import { message } from "@optique/core";
import * as C from "@optique/core";
import { defineCommand, runProgram } from "@optique/discover";
import { Check } from "../lib/check.ts";
import { Rng } from "../lib/rng.ts";
import { tlc } from "../lib/tlc.ts";

const c = new Check("C25");
const r = new Rng(c.seed * 9173 + 25);
const m = await tlc(c.scratch, "Hooks", {}, { workers: 8 });
c.states = m.states; c.transitions = m.transitions;

interface Run { want: any; got: any[]; fate: Map<string, string>; r: Rng; thrown: Map<string, unknown>; ctx: Map<string, any>; result: unknown; path: string[] }
const als = new AsyncLocalStorage<Run>();
class Exit { constructor(public code: number) {} }

/** Ends a step now, later, by returning, throwing or rejecting. */
function settle(run: Run, s: string, value: unknown): unknown {
  const rec = run.got[run.got.length - 1];
  const fail = run.fate.get(s) === "fail";
  const error = fail ? run.r.pick([() => new Error("E" + s), () => undefined, () => null, () => 0, () => "E" + s, () => ({ s }), () => Object.freeze(new TypeError(s))])() : undefined;
  if (fail) run.thrown.set(s, error);
  const end = () => { rec.open = false; rec.last = run.got[run.got.length - 1] === rec; if (fail) throw error; return value; };
  switch (run.r.pick(["sync", "micro", "macro", "long", "thenable"])) {
    case "sync": return end();
    case "micro": return Promise.resolve().then(end);
    case "macro": return new Promise((ok) => setImmediate(ok)).then(end);
    case "long": return new Promise((ok) => setTimeout(ok, run.r.int(4))).then(end);
    default: return { then: (ok: any, no: any) => { setImmediate(() => { try { ok(end()); } catch (e) { no(e); } }); } };
  }
}
function tell(run: Run, s: string, x: any): string {
  if (x === undefined) return "none";
  if (x === null || typeof x !== "object") return "?" + String(x);
  if (!("resource" in x) || x.resource === undefined) return "empty";
  for (const [k, v] of run.ctx) if (v === x.resource) return k;
  return "foreign";
}
function program(has: string[], rr: Rng) {
  const before = (s: string) => (inv: any) => {
    const run = als.getStore()!;
    const okInv = JSON.stringify(inv?.path) === JSON.stringify(run.path) && inv?.value?.n === 7;
    run.got.push({ s, got: okInv ? "invocation" : "bad invocation", err: "none", open: true });
    const res = { resource: { of: s[0], run } };
    if (run.fate.get(s) === "context") run.ctx.set(s[0], res.resource);
    return settle(run, s, run.fate.get(s) === "context" ? res : run.r.pick([null, undefined]));
  };
  const after = (s: string) => (x: any, result: unknown) => {
    const run = als.getStore()!;
    run.got.push({ s, got: tell(run, s, x), err: result === run.result ? "none" : "bad result", open: true });
    return settle(run, s, rr.pick([undefined, 1]));
  };
  const onError = (s: string) => (x: any, e: unknown) => {
    const run = als.getStore()!;
    // the error of the failed step, the very same value
    const of = [...run.thrown].filter(([k]) => k !== "Pe" && k !== "Ce").pop();
    run.got.push({ s, got: tell(run, s, x), err: of && Object.is(of[1], e) ? of[0] : "bad error", open: true });
    return settle(run, s, rr.pick([undefined, "x"]));
  };
  const hooks = (w: string): any => {
    const h: any = {};
    if (has.includes(w + "b")) h.beforeEach = before(w + "b"); else if (rr.bool(0.2)) h.beforeEach = undefined;
    if (has.includes(w + "a")) h.afterEach = after(w + "a"); else if (rr.bool(0.2)) h.afterEach = undefined;
    if (has.includes(w + "e")) h.onError = onError(w + "e"); else if (rr.bool(0.2)) h.onError = undefined;
    return Object.keys(h).length || rr.bool(0.5) ? h : undefined;
  };
  const foul = (w: string) => () => { als.getStore()?.got.push({ s: w, got: "wrong command", err: "none" }); };
  const other = (p: string[]) => ({ path: p, command: defineCommand({ parser: C.object({ k: C.flag("--kk") }), hooks: { beforeEach: foul("other before") as any, afterEach: foul("other after"), onError: foul("other error") }, handler: foul("other handler") }) });
  const pth = rr.pick([["go"], ["go"], ["grp", "go"], ["go", "deep"], []]);
  const cmd = defineCommand({
    parser: C.object({ n: C.option("--n", C.integer()) }), hooks: hooks("C"),
    handler(...args: any[]) {
      const run = als.getStore()!;
      run.got.push({ s: "H", got: args.length > 1 ? tell(run, "H", args[1]) : "none", err: args[0]?.n === 7 ? "none" : "bad value", open: true });
      run.result = run.r.pick([undefined, 5, {}]);
      return settle(run, "H", run.result) as any;
    },
  } as any);
  const commands: any[] = rr.shuffle([{ path: pth, command: cmd }, other(["zed"]), ...(rr.bool(0.5) ? [other(["grp", "zed"])] : []), ...(pth.length === 2 && pth[0] === "go" && rr.bool(0.5) ? [other(["go"])] : [])]);
  let opts: any = { commands };
  if (rr.bool(0.3)) {
    const dir = fs.mkdtempSync(path.join(c.scratch, "cmds-"));
    (globalThis as any).__vp ??= [];
    for (const e of commands) {
      const f = path.join(dir, ...e.path.slice(0, -1), (e.path.at(-1) ?? "index") + ".mjs");
      const idx = (globalThis as any).__vp.push(e.command) - 1;
      fs.mkdirSync(path.dirname(f), { recursive: true });
      fs.writeFileSync(f, `export default globalThis.__vp[${idx}];\n`);
    }
    opts = { dir };
  }
  return { path: pth, opts: { ...opts, hooks: hooks("P"), metadata: { name: "prog", version: "1.0.0", brief: message`b` }, help: "both", completion: "both", version: { value: "1.0.0", command: true, option: true } } };
}
async function perform(row: any, prog: any, rr: Rng): Promise<void> {
  const run: Run = { want: row, got: [], fate: new Map(row.log.map((x: any) => [x.s, x.f])), r: rr, thrown: new Map(), ctx: new Map(), result: undefined, path: prog.path };
  const tail = ["--n", "7"];
  const args = row.kind === "run" ? [...prog.path, ...tail]
    : row.kind === "help" ? ["--help"] : row.kind === "helpcmd" ? [...prog.path, "--help"]
    : row.kind === "version" ? ["--version"] : row.kind === "completion" ? ["completion", "bash"]
    : row.kind === "badoption" ? [...prog.path, ...tail, "--nope"] : row.kind === "badvalue" ? [...prog.path, "--n", "x"] : ["nothing-here"];
  let end = "done", err: any;
  try {
    await als.run(run, () => runProgram({ ...prog.opts, args, stdout() {}, stderr() {}, onExit: (code: number) => { throw new Exit(code); } }));
  } catch (e) { end = e instanceof Exit ? "exit" : "throw"; err = e; }
  c.traces++;
  const want = { end: row.end === "exit" ? "exit" : row.err === "none" ? "done" : "throw", log: row.log.map((x: any) => ({ s: x.s, got: x.got, err: x.err })) };
  const got = { end, log: run.got.map((x) => ({ s: x.s, got: x.got, err: x.err })) };
  const reported = row.err === "none" || (run.thrown.has(row.err) && Object.is(run.thrown.get(row.err), err));
  const overlap = run.got.some((x) => x.open || x.last === false);
  if (JSON.stringify(want) !== JSON.stringify(got) || !reported || overlap)
    c.violation(`${row.kind} has=${row.has} ${JSON.stringify(row.log.map((x: any) => x.s + x.f))}`, { has: row.has, kind: row.kind, fates: row.log, want, got, reported, overlap, error: String(err?.stack ?? err) });
  else c.sample({ has: row.has, kind: row.kind, log: row.log, end: want.end }, 5);
}
const by = new Map<string, any[]>();
for (const row of m.rows) { const k = row.has.join(); if (!by.has(k)) by.set(k, []); by.get(k)!.push(row); }
const rounds = c.thorough ? 12 : 1;
for (let i = 0; i < rounds; i++) {
  for (const [, rows] of by) {
    const prog = program(rows[0].has, r), all = r.shuffle(rows);
    // several runs of the same program at once
    for (let k = 0; k < all.length;) {
      const w = r.range(1, 5);
      await Promise.all(all.slice(k, k + w).map((row: any) => perform(row, prog, new Rng(r.int(2 ** 31)))));
      k += w;
    }
  }
}
c.finish();
