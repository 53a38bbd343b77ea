// C20/C21: completion. Random grammars, command lines and partial words; the
// recorded suggestions are judged by Suggest.tla.
import path from "node:path";
import * as C from "@optique/core";
import { Check } from "../lib/check.ts";
import { Argv, Gen } from "../lib/gen.ts";
import { profiles } from "../lib/profiles.ts";
import { Rng } from "../lib/rng.ts";
import { tryBuild } from "../lib/run.ts";
import { ndjson, tlc } from "../lib/tlc.ts";

const c = new Check(process.argv[2]);
const nCases = Number(process.env.VP_RANDOM ?? (c.thorough ? 40000 : 5000));
const r = new Rng(c.seed * 7919 + 20);
const prof = profiles.C20;
const texts = (xs: any): string[] => [...xs].filter((x: any) => x.kind === "literal").map((x: any) => x.text);
const cases: any[] = [];
while (cases.length < nCases) {
  const gr = new Rng(r.int(2 ** 31));
  const g = new Gen(gr, prof).grammar();
  const s = tryBuild(g, {}), a = tryBuild(g, { async: true, tick: async () => {} });
  if (s.out) continue;
  const gen = new Argv(gr, prof), voc = [...new Set(gen.vocab(g))];
  for (let k = 0; k < 8; k++) {
    const full = gen.argv(g).filter((x) => x !== "");
    const cut = gr.int(full.length + 1), args = full.slice(0, cut);
    const next = cut < full.length && gr.bool(0.6) ? full[cut] : gr.pick(voc.length ? voc : ["x"]);
    const p = gr.pick(["", next.slice(0, 1), next.slice(0, 2), next.slice(0, 3), next, next.startsWith("--") ? "--" : "", next.startsWith("-") ? "-" : "",
      next.startsWith("-") ? next.replace(/=.*/, "") + "=" : "", next.replace(/(=.).*/, "$1")]);
    const line = [...args, p] as [string, ...string[]];
    let sync: string[], asy: string[];
    try { sync = texts(C.suggestSync(s.p, line)); } catch (e: any) { sync = ["!crash " + e.message]; }
    try { asy = texts(await C.suggestAsync(a.p, line)); } catch (e: any) { asy = ["!crash " + e.message]; }
    cases.push({ g, args, p, sync, async: asy });
  }
}
const m = await tlc(c.scratch, "Suggest", { CASES: ndjson(path.join(c.scratch, "cases.ndjson"), cases) }, { workers: 7 });
c.states += m.states; c.transitions += m.transitions; c.traces += cases.length;
// C20 speaks about what is offered, C21 about what is missing.
const mine = (row: any): boolean => {
  if (row.tag === "SOUND") return c.id === "C20";
  if (row.tag === "COMPLETE") return c.id === "C21";
  const extra = row.got.some((s: string) => !row.want.includes(s)), missing = row.want.some((s: string) => !row.got.includes(s));
  return c.id === "C20" ? extra : missing;
};
for (const row of m.rows.filter(mine)) {
  const k = cases[row.idx - 1];
  if (process.env.DBG) console.log(row.tag, row.m, row.s, JSON.stringify(k.g), JSON.stringify([...k.args, k.p]), JSON.stringify(row.want), JSON.stringify(row.got));
  c.violation(`${row.tag} ${row.s ?? row.m} ${JSON.stringify(k.g)} ${JSON.stringify([...k.args, k.p])}`,
    { tag: row.tag, grammar: k.g, args: k.args, prefix: k.p, mode: row.m, want: row.want, got: row.got, word: row.s });
}
if (c.id === "C21") await dependents();
c.finish();

// Dependent options: every behaviour of SuggestDeps.tla in several enclosing
// grammars; the value is completed separated, joined and positionally.
async function dependents(): Promise<void> {
  const dr = new Rng(c.seed * 31 + 21), entries: any[] = [];
  for (let i = 0; i < (c.thorough ? 160 : 24); i++) {
    const ns = dr.pick([1, 1, 2, 2, 3]), srcs = Array.from({ length: ns }, () => { const w = dr.pick(["", "optional", "multi", "map", "group", "dflt", "dflt"]); return { w, wd: w === "dflt" ? dr.range(1, 3) : 0 }; });
    const deps = Array.from({ length: dr.pick([1, 1, 2]) }, () => {
      const on = dr.shuffle(Array.from({ length: ns }, (_, j) => j + 1)).slice(0, dr.range(1, ns));
      return { on, dv: on.map(() => dr.range(1, 3)) };
    });
    const tokens: any[] = [];
    srcs.forEach((_, j) => { tokens.push({ who: "s", i: j + 1, v: dr.bool(0.12) && srcs[j].w !== "multi" ? 9 : dr.range(1, 3) }); if (srcs[j].w === "multi") tokens.push({ who: "s", i: j + 1, v: dr.range(1, 3) }); });
    deps.forEach((_, j) => { if (dr.bool(0.5)) tokens.push({ who: "d", i: j + 1, v: dr.range(1, 3) }); });
    while (tokens.length > 5) tokens.pop();
    entries.push({ srcs, deps, tokens });
  }
  const dm = await tlc(c.scratch, "SuggestDeps", { ENTRIES: ndjson(path.join(c.scratch, "deps.ndjson"), entries) }, { workers: 7 });
  c.states += dm.states; c.transitions += dm.transitions;
  const W = ["a", "b", "c"], S = ["--src", "--trc", "--urc"], Sh = ["-s", "-t", "-u"], D = ["--dep", "--eep"], Dh = ["-d", "-e"];
  const values = (vs: string[]): string[] => [vs.join("") + "1", vs.join("") + "2", vs[0] + "x"];
  for (const row of dm.rows) {
    const e = entries[row.ix - 1], as = dr.bool(0.4), positional = dr.bool(0.3) ? dr.int(e.deps.length) : -1;
    const lift = (vp: any): any => as && dr.bool(0.6) ? { mode: "async", metavar: vp.metavar, placeholder: "", parse: async (x: string) => { await null; return vp.parse(x); }, format: vp.format, async *suggest(x: string) { yield* vp.suggest(x); } } : vp;
    const source = e.srcs.map(() => C.dependency(lift(C.choice(W))));
    const wraps: any = { "": (x: any) => x, optional: C.optional, multi: C.multiple, map: (x: any) => C.map(x, (v: any) => ({ v })), group: (x: any) => C.group("G", x) };
    const so = e.srcs.map((x: any, i: number) => { const o = C.option(S[i] as any, Sh[i] as any, source[i]); return x.wd ? C.withDefault(o as any, W[x.wd - 1]) : wraps[x.w](o); });
    const dd = e.deps.map((d: any, j: number) => {
      const on = d.on.map((q: number) => source[q - 1]), dv = d.dv.map((v: number) => W[v - 1]);
      const f = (...vs: string[]) => C.choice(values(vs)), fa = dr.bool(0.3) && as;
      const vp = on.length === 1 && dr.bool(0.7)
        ? fa ? on[0].deriveAsync({ metavar: "D", factory: (v: string) => lift2(f(v)), defaultValue: () => dv[0] }) : on[0].deriveSync({ metavar: "D", factory: f, defaultValue: () => dv[0] })
        : fa ? C.deriveFromAsync({ metavar: "D", dependencies: on, factory: (...vs: any[]) => lift2(f(...vs)), defaultValues: () => dv } as any)
        : C.deriveFromSync({ metavar: "D", dependencies: on, factory: f, defaultValues: () => dv } as any);
      return j === positional ? C.argument(vp as any) : dr.pick([(x: any) => x, C.optional] as any[])(C.option(D[j] as any, Dh[j] as any, vp as any));
    });
    const parts = dr.shuffle([...so, ...dd]), obj = (xs: any[]): any => C.object(Object.fromEntries(xs.map((x, i) => ["k" + dr.int(1e9) + i, x])));
    const cut = dr.int(parts.length + 1), shape = dr.pick(["object", "tuple", "merge", "concat", "nested", "cmd", "objtup"]);
    const [A, B] = [parts.slice(0, cut), parts.slice(cut)];
    const p: any = shape === "object" ? obj(parts) : shape === "tuple" ? C.tuple(parts as any) : shape === "merge" ? C.merge(obj(A), obj(B)) : shape === "concat" ? C.concat(C.tuple(A as any), C.tuple(B as any))
      : shape === "nested" ? C.object({ q: obj(A), w: obj(B) }) : shape === "cmd" ? C.command("go", obj(parts)) : C.object({ q: C.tuple(A as any), w: obj(B) });
    const line: string[] = shape === "cmd" ? ["go"] : [];
    for (const t of row.line) {
      const v = t.v === 9 ? "bogus" : W[t.v - 1];
      if (t.who === "s") line.push(...dr.pick([[S[t.i - 1], v], [Sh[t.i - 1], v], [S[t.i - 1] + "=" + v]]));
      else if (t.i - 1 !== positional) line.push(D[t.i - 1], v + "1");
    }
    for (let j = 0; j < e.deps.length; j++) {
      const w = row.want[j], all = w.fail ? [] : values(w.vs.map((v: number) => W[v - 1])), pre = dr.pick(["", "", "a", "b", w.fail ? "a" : all[0].slice(0, 1), w.fail ? "" : all[2]]);
      let ask: string[], want = all.filter((x) => x.startsWith(pre));
      if (j === positional) ask = [pre];
      else if (dr.bool(0.4)) { ask = [D[j] + "=" + pre]; want = want.map((x) => D[j] + "=" + x); }
      else ask = [dr.pick([D[j], Dh[j]]), pre];
      let got: string[];
      try { got = texts(p.mode === "async" || as ? await C.suggestAsync(p, [...line, ...ask] as any) : C.suggestSync(p, [...line, ...ask] as any)); } catch (x: any) { got = ["!crash " + x.message]; }
      if (j === positional) got = got.filter((x) => !x.startsWith("-"));
      c.traces++;
      if (JSON.stringify([...got].sort()) !== JSON.stringify([...want].sort()))
        c.violation(`dependent ${shape} ${JSON.stringify(e)} ${JSON.stringify([...line, ...ask])}`, { entry: e, shape, async: as, line: [...line, ...ask], want, got });
    }
  }
  function lift2(vp: any): any { return { mode: "async", metavar: vp.metavar, placeholder: "", parse: async (x: string) => { await null; return vp.parse(x); }, format: vp.format, async *suggest(x: string) { yield* vp.suggest(x); } }; }
}
