// C13: dependent options.  Every behaviour of Dependencies.tla (grammars of
// sources and dependents under wrappers x command lines) is executed in
// several enclosing grammars, synchronously and asynchronously.
import path from "node:path";
import * as C from "@optique/core";
import { runWith, runWithSync } from "@optique/core/facade";
import { bindEnv, createEnvContext } from "@optique/env";
import { Check } from "../lib/check.ts";
import { Rng } from "../lib/rng.ts";
import { ndjson, tlc } from "../lib/tlc.ts";

const c = new Check("C13");
const r = new Rng(c.seed * 104729 + 13);
type Layer = { t: string; dv: number; val: number };
const L = (t: string, dv = -1, val = -1): Layer => ({ t, dv, val });
const V = () => r.range(1, 3);
const srcLayers = (): Layer[] => {
  const one = () => r.pick([() => L("optional"), () => L("dflt", V()), () => L("map"), () => L("group"), () => L("env", -1, V()), () => L("env", V()), () => L("env", -1, 9), () => L("env")])();
  const n = r.pick([0, 1, 1, 1, 2, 2, 3]), w: Layer[] = [];
  for (let i = 0; i < n; i++) w.push(one());
  if (r.bool(0.12)) { const q = w.filter((l) => l.t === "optional" || l.t === "map").slice(0, 1); return r.bool() ? [...q.filter((l) => l.t === "map"), L("multi")] : [L("multi"), ...q.filter((l) => l.t === "map")]; }
  return w.filter((l, i) => l.t !== "env" || w.findIndex((x) => x.t === "env") === i);
};
const depLayers = (): Layer[] => r.pick([() => [], () => [L("optional")], () => [L("dflt", V())], () => [L("map"), L("optional")], () => [L("optional"), L("map")], () => [L("dflt", V()), L("map")], () => [L("map"), L("dflt", V())], () => [L("multi")], () => [L("multi"), L("map")], () => [L("map"), L("multi")], () => [L("dflt", V()), L("optional")], () => [L("group")]])();
const entries: any[] = [];
for (let i = 0; i < (c.thorough ? 1500 : 130); i++) {
  const ns = r.pick([1, 1, 2, 2, 3]), nd = r.pick([1, 1, 2, 2]);
  const srcs = Array.from({ length: ns }, () => ({ w: srcLayers() }));
  const deps = Array.from({ length: nd }, () => {
    const k = ns === 1 ? 1 : r.range(1, ns), on = r.shuffle(Array.from({ length: ns }, (_, j) => j + 1)).slice(0, k);
    return { on, dv: on.map(V), thr: r.bool(0.1) ? V() : 0, w: depLayers() };
  });
  const tokens: any[] = [];
  srcs.forEach((s, j) => { for (let q = s.w.some((l) => l.t === "multi") ? 2 : r.range(1, 2); q > 0; q--) tokens.push({ who: "s", i: j + 1, v: r.bool(0.12) ? 9 : V() }); });
  deps.forEach((d, j) => { for (let q = d.w.some((l) => l.t === "multi") ? 2 : r.range(1, 2); q > 0; q--) tokens.push({ who: "d", i: j + 1, v: r.range(1, 4) }); });
  while (tokens.length > 6) tokens.splice(r.int(tokens.length), 1);
  entries.push({ srcs, deps, tokens, max: 4 });
}
const m = await tlc(c.scratch, "Dependencies", { ENTRIES: ndjson(path.join(c.scratch, "entries.ndjson"), entries) }, { workers: 8 });
c.states = m.states; c.transitions = m.transitions;

// ---- the real thing ----
const word = (v: number) => v === 9 ? "bogus" : ["a", "b", "c"][v - 1];
const num = (s: string) => ["a", "b", "c"].indexOf(s) + 1;
const mapped = (v: any) => ({ mapped: v });
const async1 = (p: any) => ({ mode: "async", metavar: p.metavar, placeholder: p.placeholder, parse: async (s: string) => { await null; return p.parse(s); }, format: p.format });
const factory = (d: any) => (...vs: string[]) => {
  if (d.thr && vs.some((v) => num(v) === d.thr)) throw new Error("factory");
  const sum = vs.reduce((a, v) => a + num(v), 0);
  return { mode: "sync", metavar: "D", placeholder: "", parse: (s: string) => { const x = Number(s.slice(1)); return (x + sum) % 3 !== 0 ? { success: true, value: `${vs.join("")}:${x}` } : { success: false, error: C.message`not allowed` }; }, format: (v: string) => "x" + v.split(":")[1] } as any;
};
let uid = 0;
const OPT = ["-s", "-t", "-u"], DOPT = ["-d", "-e"];
interface Made { s: any[]; d: any[]; world: any; async: boolean; argS: boolean; argD: boolean }
function make(e: any, mode: { as: boolean; argS: boolean; argD: boolean }): Made {
  const world: any = { env: {}, contexts: [] };
  const asrc = e.srcs.map(() => mode.as && r.bool(0.5));
  const sources = e.srcs.map((_: any, i: number) => { const ch = C.choice(["a", "b", "c"]); return C.dependency((asrc[i] ? async1(ch) : ch) as any); });
  let env: any;
  const wrap = (p: any, w: Layer[], val: (n: number) => any) => {
    for (const l of [...w].reverse()) switch (l.t) {
      case "optional": p = C.optional(p); break;
      case "dflt": p = r.bool(0.3) ? C.withDefault(p, () => val(l.dv)) : C.withDefault(p, val(l.dv)); break;
      case "map": p = C.map(p, mapped); break;
      case "multi": p = C.multiple(p); break;
      case "group": p = C.group("G", p); break;
      case "env": {
        if (!env) { env = createEnvContext({ source: (k: string) => world.env[k] }); world.contexts.push(env); }
        const key = "E" + uid++;
        if (l.val !== -1) world.env[key] = word(l.val);
        p = bindEnv(p, { context: env, key, parser: C.choice(["a", "b", "c"]) as any, ...(l.dv === -1 ? {} : { default: word(l.dv) }) });
      }
    }
    return p;
  };
  const s = e.srcs.map((x: any, i: number) => wrap(mode.argS && i === 0 ? C.argument(sources[0]) : (C.option as any)(OPT[i], "--" + ["src", "trc", "urc"][i], sources[i]), x.w, word));
  const d = e.deps.map((x: any, i: number) => {
    const on = x.on.map((j: number) => sources[j - 1]), f = factory(x), df = mode.as && r.bool(0.5);
    const vp = on.length === 1 && r.bool(0.7)
      ? (df ? on[0].deriveAsync({ metavar: "D", factory: (v: string) => async1(f(v)), defaultValue: () => word(x.dv[0]) }) : r.bool() ? on[0].derive({ metavar: "D", mode: "sync", factory: f, defaultValue: () => word(x.dv[0]) }) : on[0].deriveSync({ metavar: "D", factory: f, defaultValue: () => word(x.dv[0]) }))
      : df ? C.deriveFromAsync({ metavar: "D", dependencies: on, factory: (...vs: any[]) => async1(f(...vs)), defaultValues: () => x.dv.map(word) } as any) : r.bool() ? C.deriveFrom({ metavar: "D", mode: "sync", dependencies: on, factory: f, defaultValues: () => x.dv.map(word) } as any) : C.deriveFromSync({ metavar: "D", dependencies: on, factory: f, defaultValues: () => x.dv.map(word) } as any);
    return wrap(mode.argD && i === 0 ? C.argument(vp) : (C.option as any)(DOPT[i], "--" + ["dep", "eep"][i], vp), x.w, (n) => "v" + n);
  });
  return { s, d, world, async: mode.as, argS: mode.argS, argD: mode.argD };
}
const o = (pre: string, ps: any[]) => Object.fromEntries(ps.map((p, i) => [pre + i, p]));
const fields = (v: any, pre: string, n: number) => Array.from({ length: n }, (_, i) => v[pre + i]);
type Enc = { name: string; build: (s: any[], d: any[]) => any; argv: (g: { s: string[][]; d: string[][]; all: string[][] }) => string[]; get: (v: any, ns: number, nd: number) => any[]; late?: boolean; lateAsync?: boolean };
const flat = (g: any) => g.all.flat();
const both = (v: any, ns: number, nd: number) => [...fields(v, "s", ns), ...fields(v, "d", nd)];
const y = () => C.optional(C.option("-y", C.string()));
const encs: Enc[] = [
  { name: "object", build: (s, d) => C.object({ ...o("s", s), ...o("d", d) }), argv: flat, get: both },
  { name: "object reversed", build: (s, d) => C.object({ ...o("d", d), ...o("s", s) }), argv: flat, get: both },
  { name: "tuple", build: (s, d) => C.tuple([...s, ...d] as any), argv: flat, get: (v) => v },
  { name: "tuple reversed", build: (s, d) => C.tuple([...d, ...s] as any), argv: flat, get: (v, ns, nd) => [...v.slice(nd), ...v.slice(0, nd)] },
  { name: "merge", build: (s, d) => C.merge(C.object(o("s", s)), C.object({ ...o("d", d), y: y() })), argv: flat, get: both },
  { name: "merge reversed", build: (s, d) => C.merge(C.object({ ...o("d", d) }), C.object({ ...o("s", s), y: y() })), argv: flat, get: both },
  { name: "merge of merges", build: (s, d) => C.merge(C.merge(C.object({ y: y() }), C.object(o("d", d))), C.merge(C.object(o("s", s)), C.object({ k: C.constant(1) }))), argv: flat, get: both },
  { name: "concat", build: (s, d) => C.concat(C.tuple(s as any), C.tuple([...d, y()] as any)), argv: flat, get: (v) => v.slice(0, -1) },
  { name: "group", build: (s, d) => C.group("Out", C.object({ ...o("s", s), ...o("d", d) })), argv: flat, get: both },
  { name: "map", build: (s, d) => C.map(C.object({ ...o("s", s), ...o("d", d) }), (v: any) => [v]), argv: flat, get: (v, a, b) => both(v[0], a, b) },
  { name: "nested object", build: (s, d) => C.object({ n: C.object({ ...o("s", s), ...o("d", d) }), y: y() }), argv: flat, get: (v, a, b) => both(v.n, a, b) },
  { name: "object in tuple", build: (s, d) => C.tuple([y(), C.object({ ...o("s", s), ...o("d", d) })]), argv: flat, get: (v, a, b) => both(v[1], a, b) },
  { name: "command", build: (s, d) => C.command("go", C.object({ ...o("s", s), ...o("d", d) })), argv: (g) => ["go", ...flat(g)], get: both },
  { name: "or of commands", build: (s, d) => C.or(C.command("no", C.object({ z: C.constant(0) })), C.command("go", C.object({ ...o("s", s), ...o("d", d) }))), argv: (g) => ["go", ...flat(g)], get: both },
  { name: "or", build: (s, d) => C.or(C.object({ r: C.option("-r", C.string()), ...o("s", s), ...o("d", d) }), C.command("no", C.object({}))), argv: (g) => ["-r", "1", ...flat(g)], get: both },
  { name: "longestMatch", build: (s, d) => C.longestMatch(C.object({ r: C.option("-r", C.string()), ...o("s", s), ...o("d", d) }), C.object({ q: C.option("-q", C.string()) })), argv: (g) => [...flat(g), "-r", "1"], get: both },
  { name: "conditional branch", build: (s, d) => C.conditional(C.option("-k", C.choice(["k", "j"])), { j: C.object({}), k: C.object({ ...o("s", s), ...o("d", d) }) }), argv: (g) => ["-k", "k", ...flat(g)], get: (v, a, b) => both(v[1], a, b) },
  { name: "sources outside the command", build: (s, d) => C.object({ ...o("s", s), cmd: C.command("go", C.object(o("d", d))) }), argv: (g) => [...g.s.flat(), "go", ...g.d.flat()], get: (v, a, b) => [...fields(v, "s", a), ...fields(v.cmd, "d", b)] },
  { name: "sources outside alternative commands", build: (s, d) => C.merge(C.object(o("s", s)), C.or(C.command("no", C.object({ z: C.constant(0) })), C.command("go", C.object(o("d", d))))), argv: (g) => [...g.s.flat(), "go", ...g.d.flat()], get: both },
  { name: "sources in a sibling object", lateAsync: true, build: (s, d) => C.object({ a: C.object(o("s", s)), b: C.object(o("d", d)) }), argv: flat, get: (v, a, b) => [...fields(v.a, "s", a), ...fields(v.b, "d", b)] },
  { name: "dependents nested deeper", build: (s, d) => C.object({ ...o("s", s), b: C.tuple(d as any) }), argv: flat, get: (v, a) => [...fields(v, "s", a), ...v.b] },
  { name: "sources nested deeper", late: true, build: (s, d) => C.object({ a: C.tuple(s as any), ...o("d", d) }), argv: flat, get: (v, a, b) => [...v.a, ...fields(v, "d", b)] },
  { name: "sources nested deeper, later", late: true, build: (s, d) => C.object({ ...o("d", d), a: C.object(o("s", s)) }), argv: flat, get: (v, a, b) => [...fields(v.a, "s", a), ...fields(v, "d", b)] },
  { name: "concat reversed", late: true, build: (s, d) => C.concat(C.tuple([...d] as any), C.tuple(s as any)), argv: flat, get: (v, ns, nd) => [...v.slice(nd), ...v.slice(0, nd)] },
  { name: "sources in a later sibling", late: true, build: (s, d) => C.tuple([C.object(o("d", d)), C.tuple(s as any)]), argv: flat, get: (v, a, b) => [...v[1], ...fields(v[0], "d", b)] },
];
const ERR = { failed: true };
const errors: string[] = [];
async function go(p: any, w: any, argv: string[], as: boolean) {
  try {
    if (w.contexts.length || r.bool(0.3)) {
      const op: any = { args: argv, stdout() {}, stderr(x: string) { errors.push(x); }, onError: () => ERR };
      return as ? await runWith(p, "p", w.contexts, op) : runWithSync(p, "p", w.contexts, op);
    }
    const x: any = as ? await C.parseAsync(p, argv) : C.parseSync(p, argv);
    return x.success ? x.value : ERR;
  } catch (e: any) { return { crash: String(e?.stack ?? e).slice(0, 300) }; }
}
const same = (a: any, b: any) => JSON.stringify(a) === JSON.stringify(b) && (a === undefined) === (b === undefined);
const show = (w: Layer[]) => w.map((l) => l.t + (l.val === -1 ? "" : "@" + l.val) + (l.dv === -1 ? "" : "=" + l.dv)).join(">") || "-";
const rep = (v: any, n: number): any => n > 0 ? rep(mapped(v), n - 1) : v;
function wantField(w: Layer[], f: any, given: (k: number) => any, n: number, val: (n: number) => any): any {
  if (f.f === "undef") return rep(undefined, f.m);
  if (f.f === "val") return rep(val(f.v), f.m);
  if (f.f === "list") return rep([], f.m);
  // given: apply the layers to the values
  const at = w.findIndex((l) => l.t === "multi");
  const maps = (ls: Layer[]) => ls.filter((l) => l.t === "map").length;
  if (at < 0) return rep(given(0), maps(w));
  return rep(Array.from({ length: n }, (_, k) => rep(given(k), maps(w.slice(at + 1)))), maps(w.slice(0, at)));
}
const counts: Record<string, number> = {};
const per = c.thorough ? 2 : 1;
let open = 0;
for (const row of m.rows) {
  if (row.open) { open++; continue; }
  const e = entries[row.e - 1], line = row.line.map((k: number) => e.tokens[k - 1]);
  for (let k = 0; k < per; k++) {
    const as = r.bool(0.4), argS = r.bool(0.15) , argD = !argS && r.bool(0.2);
    if (k > 0 && !c.thorough) continue;
    const mk = make(e, { as, argS, argD });
    const enc = r.pick(encs);
    // a default or bound value of a source in a construct declared later: recorded defect
    if ((enc.late || enc.lateAsync && as) && row.late) continue;
    const spell = (t: any): string[] => {
      const v = t.who === "s" ? word(t.v) : "x" + t.v;
      if ((t.who === "s" ? argS : argD) && t.i === 1) return [v];
      const [a, b] = t.who === "s" ? [OPT[t.i - 1], "--" + ["src", "trc", "urc"][t.i - 1]] : [DOPT[t.i - 1], "--" + ["dep", "eep"][t.i - 1]];
      return r.pick([[a, v], [b, v], [`${b}=${v}`]]);
    };
    const occ = line.map(spell);
    const g = { all: occ, s: occ.filter((_: any, i: number) => line[i].who === "s"), d: occ.filter((_: any, i: number) => line[i].who === "d") };
    if (argS && enc.name.startsWith("sources outside")) continue;
    const argv = enc.argv(g);
    const p = enc.build(mk.s, mk.d);
    const got = await go(p, mk.world, argv, as);
    c.traces++;
    const key = `${enc.name} ${e.srcs.map((s: any) => show(s.w)).join("|")} ; ${e.deps.map((d: any) => `${d.on.join("")}${d.thr ? "!" + d.thr : ""}(${d.dv.join("")}) ${show(d.w)}`).join("|")} ${argS ? "argS" : ""}${argD ? "argD" : ""}`;
    const gv = (who: string, i: number) => line.filter((t: any) => t.who === who && t.i === i + 1);
    const want = row.ok ? [
      ...e.srcs.map((s: any, i: number) => wantField(s.w, row.s[i], (k) => word(gv("s", i)[k].v), gv("s", i).length, word)),
      ...e.deps.map((d: any, i: number) => wantField(d.w, row.d[i], (k) => `${row.d[i].vs.map(word).join("")}:${row.d[i].xs[k]}`, row.d[i].xs.length, (n) => "v" + n)),
    ] : "failure";
    const det = { enclosure: enc.name, argv, srcs: e.srcs, deps: e.deps, async: as, argS, argD, want };
    counts[row.ok ? "value" : "failure"] = (counts[row.ok ? "value" : "failure"] ?? 0) + 1;
    if (got?.crash) c.violation(key + " crash", { ...det, got });
    else if (!row.ok ? got !== ERR : got === ERR) c.violation(key + (row.ok ? " rejected" : " accepted"), { ...det, got: got === ERR ? "failure" : got, errors: errors.slice(-1) });
    else if (row.ok) {
      const have = enc.get(got, e.srcs.length, e.deps.length);
      if (!same(have, want)) c.violation(key + " value", { ...det, got: have });
    }
    if (line.length > 2) c.sample({ key, argv, want }, 5);
  }
}
// ---- recorded defects: a source inside a construct declared after the dependent ----
{
  const src = C.dependency(C.choice(["a", "b", "c"]));
  const d = () => C.option("-d", src.derive({ metavar: "D", mode: "sync", defaultValue: () => "c" as const, factory: (v: string) => factory({})(v) }));
  const s = () => C.option("-s", src), z = () => C.option("-z", C.string());
  const w = () => C.withDefault(s(), "b" as const);
  const probes: [string, any, string[], any][] = [
    ["concat(tuple([dependent]), tuple([withDefault(source)]))", C.concat(C.tuple([d()]), C.tuple([w()])), ["-d", "x2"], ["b:2", "b"]],
    ["object({d: dependent, q: object({s: withDefault(source)})})", C.object({ d: d(), q: C.object({ s: w() }) }), ["-d", "x2"], { d: "b:2", q: { s: "b" } }],
    ["tuple([dependent, tuple([withDefault(source)])])", C.tuple([d(), C.tuple([w()])]), ["-d", "x2"], ["b:2", ["b"]]],
    ["object({d: dependent, q: command(object({s: withDefault(source)}))})", C.object({ d: d(), q: C.command("go", C.object({ s: w() })) }), ["-d", "x2", "go"], { d: "b:2", q: { s: "b" } }],
    ["merge(object({d: dependent}), or(object({s: source}), ...))", C.merge(C.object({ d: d() }), C.or(C.object({ s: s() }), C.object({ z: z() }))), ["-s", "b", "-d", "x2"], { d: "b:2", s: "b" }],
    ["object({d: dependent, q: conditional(source, ...)})", C.object({ d: d(), q: C.conditional(s(), { b: C.object({}) }) }), ["-s", "b", "-d", "x2"], { d: "b:2", q: ["b", {}] }],
    ["object({q: object({s: withDefault(source), z: async}), p: object({d: dependent})}), asynchronously", C.object({ q: C.object({ s: w(), z: C.option("-z", async1(C.string())  as any) }), p: C.object({ d: d() }) }), ["-z", "1", "-d", "x2"], { q: { s: "b", z: "1" }, p: { d: "b:2" } }],
  ];
  for (const [key, p, argv, want] of probes) {
    const got = await go(p, { contexts: [] }, argv, key.endsWith("asynchronously"));
    c.traces++;
    if (!same(got, want)) c.violation(key, { argv, want, got: got === ERR ? "failure" : got });
  }
}
c.extra = { grammars: entries.length, enclosures: encs.length, outcomes: counts, leftOpen: open };
c.finish();
