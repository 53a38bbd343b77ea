// C16: every behaviour of Contexts.tla (context lists, faults, requests,
// disposers) is executed with real contexts through runWith(), runWithSync(),
// runWithAsync() and @optique/run; calls, their order and the outcome, errors
// included, are compared.
import path from "node:path";
import { command, integer, object, option, optional, or, string } from "@optique/core";
import { runWith, runWithAsync, runWithSync } from "@optique/core/facade";
import { getAnnotations } from "@optique/core/annotations";
import { run, runAsync, runSync } from "@optique/run";
import { Check } from "../lib/check.ts";
import { Rng } from "../lib/rng.ts";
import { build } from "../lib/ast.ts";
import { a, f, oi } from "../lib/dsl.ts";
import { ndjson, tlc } from "../lib/tlc.ts";

const c = new Check(process.argv[2]);
const r = new Rng(c.seed * 7919 + 16);
const KA = Symbol("A"), KB = Symbol("B");
const lines = [
  { g: 0, argv: ["-x", "5"], kind: "value", plain: "value", request: false, seedk: true, seed: { x: 5, y: undefined } },
  { g: 0, argv: ["-y", "v", "-x", "5"], kind: "value", plain: "value", request: false, seedk: true, seed: { x: 5, y: "v" } },
  { g: 0, argv: ["-x", "zz"], kind: "error", plain: "error", request: false, seedk: true, seed: { y: undefined } },
  { g: 0, argv: ["-y", "v"], kind: "error", plain: "error", request: false, seedk: true, seed: { y: "v" } },
  { g: 0, argv: ["-x", "5", "--bad"], kind: "error", plain: "error", request: false, seedk: true, seed: { x: 5, y: undefined } },
  { g: 0, argv: ["--help"], kind: "help", plain: "error", request: true, seedk: true, seed: { y: undefined } },
  { g: 0, argv: ["-x", "5", "--version"], kind: "version", plain: "error", request: true, seedk: true, seed: { x: 5, y: undefined } },
  { g: 0, argv: ["-y", "v", "--completion", "bash"], kind: "completion", plain: "error", request: true, seedk: true, seed: { y: "v" } },
  { g: 0, argv: ["-y", "--help", "-x", "1"], kind: "value", plain: "value", request: false, seedk: true, seed: { x: 1, y: "--help" } },
  { g: 1, argv: ["go", "-y", "v"], kind: "value", plain: "value", request: false, seedk: true, seed: { y: "v" } },
  { g: 1, argv: ["go", "--help"], kind: "help", plain: "error", request: true, seedk: true, seed: {} },
  { g: 1, argv: ["--bad"], kind: "error", plain: "error", request: false, seedk: false, seed: null },
  { g: 2, argv: [], kind: "error", plain: "error", request: false, seedk: false, seed: null },
  { g: 2, argv: ["-x", "5"], kind: "value", plain: "value", request: false, seedk: true, seed: 5 },
  { g: 3, argv: ["--bad"], kind: "error", plain: "error", request: false, seedk: false, seed: null },
  { g: 4, argv: [], kind: "error", plain: "error", request: false, seedk: false, seed: null },
  { g: 4, argv: ["v"], kind: "value", plain: "value", request: false, seedk: true, seed: "v" },
  { g: 1, argv: [], kind: "error", plain: "error", request: false, seedk: false, seed: null },
];
const T = (o: any) => ({ two: false, asy: false, d1: ["A"], d2: [], int: false, fault: "none", disp: "sync", df: false, ...o });
const types = [
  T({}), T({ two: true, d1: ["A", "B"], d2: [], disp: "both" }), T({ two: true, d1: [], d2: ["A"], disp: "async" }), T({ d1: ["B"], fault: "p1" }),
  T({ two: true, asy: true, d2: ["B"], disp: "none" }), T({ two: true, d2: ["A"], fault: "p2", df: true }), T({ d1: ["A", "B"], disp: "sync", df: true }),
  T({ asy: true, d1: ["B"], disp: "async" }), T({ d1: [], int: true, disp: "none" }), T({ two: true, d1: ["A"], d2: ["B"], int: true, disp: "lying" }),
  T({ disp: "async", df: true, two: true }), T({ asy: true, fault: "p1", disp: "both", df: true }), T({ two: true, asy: true, fault: "p2", disp: "sync" }),
  T({ two: true, d1: ["B"], d2: ["A", "B"], disp: "lying", df: true }), T({ d1: [], disp: "both", df: true }), T({ two: true, fault: "p1", asy: true, disp: "async" }),
];
const apis = [
  { nm: "runWithSync", sync: true, metas: true, throws: [false, true] },
  { nm: "runWith", sync: false, metas: true, throws: [false] },
  { nm: "runWith async parser", sync: false, metas: false, throws: [true] },
  { nm: "runWithAsync", sync: false, metas: true, throws: [true] },
  { nm: "runSync", sync: true, metas: true, throws: [true] },
  { nm: "run", sync: false, metas: true, throws: [true] },
  { nm: "runAsync async parser", sync: false, metas: true, throws: [true] },
];
// longer random lists besides the enumerated ones
const lists = Array.from({ length: c.thorough ? 600 : 40 }, () => Array.from({ length: r.range(3, 5) }, () => r.range(1, types.length)));
const m = await tlc(c.scratch, "Contexts", { CFG: ndjson(path.join(c.scratch, "cfg.ndjson"), [{ types, lines: lines.map(({ argv: _a, seed: _s, g: _g, ...x }) => x), apis, few: c.thorough ? 12 : 5, lists }]) }, { workers: 8, heap: "10g" });
c.states = m.states; c.transitions = m.transitions;

const reader = (k: symbol, async: boolean): any => ({
  $valueType: [], $stateType: [], mode: async ? "async" : "sync", priority: 0, usage: [], leadingNames: new Set(), acceptingAnyToken: false, initialState: { reader: true },
  parse: (x: any) => { const q = { success: true, next: x, consumed: [] }; return async ? Promise.resolve(q) : q; },
  complete: (s: any) => { const q = { success: true, value: getAnnotations(s)?.[k] ?? "-" }; return async ? Promise.resolve(q) : q; },
  suggest: () => async ? (async function* () {})() : [], getDocFragments: () => ({ fragments: [] }),
});
const grammar = (g: number, as: boolean) => {
  const ab = () => ({ a: reader(KA, as), b: reader(KB, as) });
  if (g >= 2) return build(g === 2 ? oi(0, 9, "-x") : g === 3 ? f("-f") : a(), as ? { async: true, tick: async () => {} } : {});
  return (g === 0 ? object({ x: option("-x", integer()), y: optional(option("-y", string())), ...ab() })
    : or(object({ x: option("-x", integer()), ...ab() }), command("go", object({ y: option("-y", string()), ...ab() })))) as any;
};
const grammars = [0, 1, 2, 3, 4].map((g) => ({ s: grammar(g, false), a: grammar(g, true) }));
class Fault extends Error { id: string; constructor(id: string) { super("fault " + id); this.id = id; } }
const idOf = (e: any): string => e instanceof Fault ? e.id : e instanceof TypeError ? "type" : "other " + (e?.stack ?? e);
const flat = (e: any): any => {
  if (e == null) return null;
  if (e.name === "SuppressedError" || (e.error !== undefined && e.suppressed !== undefined)) return { sup: flat(e.suppressed), by: flat(e.error) };
  if (e instanceof AggregateError) return { all: e.errors.map(idOf) };
  return idOf(e);
};
const swallow = (p: Promise<any>) => { p.catch(() => {}); return p; };
function makeContexts(l: number[], setup: string, ev: any[]) {
  const shared = Symbol("same");
  return l.map((ti, at) => {
    const t = types[ti - 1], j = at + 1;
    const ctx: any = {
      id: setup === "dup" ? shared : Symbol(`c${j}`),
      phase: setup === "phase" && j === l.length ? "three-pass" : t.two ? "two-pass" : "single-pass",
      getAnnotations(q: any) {
        const ph = q.phase === "phase1" ? "p1" : "p2";
        ev.push({ k: ph, c: j, ...(ph === "p2" ? { parsed: q.parsed } : {}) });
        const make = () => {
          if (t.fault === ph) throw new Fault(`${ph}:${j}`);
          const o: any = {};
          for (const key of ph === "p1" ? t.d1 : t.d2) o[key === "A" ? KA : KB] = `c${j}${ph}`;
          return o;
        };
        return t.asy ? swallow((async () => { await null; return make(); })()) : make();
      },
    };
    if (t.int) ctx.getInternalAnnotations = (q: any) => ({ [KB]: `c${j}${q.phase === "phase1" ? "p1" : "p2"}int` });
    const dispose = (how: string) => { ev.push({ k: "d", c: j, how }); if (t.df) throw new Fault(`d:${j}`); };
    if (t.disp === "sync" || t.disp === "both") ctx[Symbol.dispose] = () => dispose("sync");
    if (t.disp === "async" || t.disp === "both") ctx[Symbol.asyncDispose] = () => swallow((async () => { dispose("async"); })());
    if (t.disp === "lying") ctx[Symbol.asyncDispose] = () => dispose("async");
    return ctx;
  });
}
class Exit extends Fault { }
async function execute(row: any) {
  const api = apis[row.api - 1], line = lines[row.line - 1], ev: any[] = [];
  const ctxs = makeContexts(row.l, row.setup, ev);
  const throws = row.ev.some((e: any) => e.k === "cb" && e.how.endsWith("!"));
  const cb = (kind: string) => (_code: number) => { ev.push({ k: "cb", c: 0, how: kind + (throws ? "!" : "") }); if (throws) throw new Fault("cb"); return { cb: kind }; };
  const o: any = { args: line.argv, stdout() {}, stderr() {} };
  const ran = /^run(Sync|Async)?( |$)/.test(api.nm);
  if (api.metas) {
    for (const k of ["help", "version", "completion"]) o[k] = { option: true, ...(k === "version" ? { value: "1" } : {}), ...(ran ? {} : { onShow: cb(k) }) };
  }
  let kind = api.metas ? line.kind : line.plain;
  if (ran) { o.programName = "p"; o.contexts = ctxs; o.onExit = (code: number) => { ev.push({ k: "cb", c: 0, how: (kind === "value" ? "?" : kind) + "!" }); if ((code !== 0) !== (kind === "error")) ev.push({ k: "wrong exit " + code }); throw new Exit("cb"); }; }
  else o.onError = cb("error");
  const g = grammars[line.g];
  let value: any, err: any;
  try {
    switch (api.nm) {
      case "runWithSync": value = runWithSync(g.s, "p", ctxs, o); break;
      case "runWith": value = await runWith(g.s, "p", ctxs, o); break;
      case "runWith async parser": value = await runWith(g.a, "p", ctxs, o); break;
      case "runWithAsync": value = await runWithAsync(r.bool(0.5) ? g.s : g.a, "p", ctxs, o); break;
      case "runSync": value = runSync(g.s, o); break;
      case "run": value = await run(g.s, o); break;
      default: value = await runAsync(g.a, o);
    }
  } catch (e) { err = e; }
  return { ev, value, err: flat(err) };
}
const counts: Record<string, number> = {};
for (const row of m.rows) {
  const line = lines[row.line - 1], api = apis[row.api - 1];
  const got = await execute(row);
  c.traces++;
  const phase1 = (how: string) => { const [a, b] = how.split("/"); return { a, b }; };
  const evOf = (e: any) => e.k === "p2" ? { k: "p2", c: e.c, parsed: typeof line.seed === "object" ? { ...line.seed, ...phase1(e.how) } : line.seed } : e.k === "p1" ? { k: "p1", c: e.c } : e;
  const canon = (x: any) => JSON.stringify(x, (_k, v) => v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).filter(([, y]) => y !== undefined).sort(([p], [q]) => p < q ? -1 : 1)) : v);
  const d = row.derr.length === 0 ? null : row.derr.length === 1 ? row.derr[0] : { all: row.derr };
  const wantErr = row.prim.t === "err" ? (d ? { sup: row.prim.id, by: d } : row.prim.id) : d;
  counts[wantErr ? (d ? (row.prim.t === "err" ? "both fail" : "disposal fails") : "run fails") : row.res.t] = (counts[wantErr ? (d ? (row.prim.t === "err" ? "both fail" : "disposal fails") : "run fails") : row.res.t] ?? 0) + 1;
  const key = `${api.nm} ${JSON.stringify(line.argv)} ${row.setup} ${JSON.stringify(row.l)}`;
  const bad = (what: string, want: any, have: any) => c.violation(`${key} ${what}`, { api: api.nm, argv: line.argv, setup: row.setup, contexts: row.l.map((t: number) => types[t - 1]), what, want, got: have });
  if (canon(row.ev.map(evOf)) !== canon(got.ev)) bad("calls", row.ev.map(evOf), got.ev);
  else if (canon(wantErr) !== canon(got.err)) bad("error", wantErr, got.err);
  else if (!wantErr) {
    const [a, b] = row.res.id.split("/");
    const want = row.res.t === "value" ? typeof line.seed === "object" ? { ...line.seed, a, b } : line.seed : { cb: row.res.id };
    if (canon(want) !== canon(got.value)) bad("result", want, got.value);
  }
  if (row.l.length === 3 && row.ev.length > 7) c.sample({ api: api.nm, argv: line.argv, contexts: row.l.map((t: number) => types[t - 1]), calls: row.ev.map((e: any) => e.k + e.c), outcome: wantErr ?? row.res }, 4);
}
c.extra = { context_types: types.length, outcomes: counts, random_lists: lists.length };
c.finish();
