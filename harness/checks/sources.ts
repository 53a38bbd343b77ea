// C14 and C15: values from several sources.  Every behaviour of Sources.tla
// (stacks of bindings and wrappers x what each source supplies x the command
// line) is executed with the real contexts and bindings in several enclosing
// grammars, synchronously and asynchronously.
import { writeFileSync } from "node:fs";
import path from "node:path";
import * as C from "@optique/core";
import { runWith, runWithSync } from "@optique/core/facade";
import { bindEnv, createEnvContext } from "@optique/env";
import { bindConfig, createConfigContext } from "@optique/config";
import { bindDerivedDefault, createDerivedDefaults } from "@optique/derived-defaults";
import { Check } from "../lib/check.ts";
import { Rng } from "../lib/rng.ts";
import { ndjson, tlc } from "../lib/tlc.ts";

const c = new Check(process.argv[2]);
const r = new Rng(c.seed * 7919 + (c.id === "C14" ? 14 : 15));
const invalid = c.id === "C15";
type Layer = { t: string; dv: number };
const L = (t: string, dv = -1): Layer => ({ t, dv });
const kinds = (i: number): Layer[] => [
  L("env"), L("env", 50 + i), L("cfg"), L("cfg", 53 + i), L("der"), L("der", 56 + i), L("optional"), L("dflt", 1 + i), L("map"), L("group"),
  ...(invalid ? [L("env", 99), L("cfg", 99), L("der", 99)] : []),
];
const bases = ["int", "int", "list", "fail", "str", "choice"];
const entries: any[] = [];
const add = (st: Layer[], base: string) => entries.push({ stacks: [st], base: [base], fixed: [] });
const bound = (st: Layer[]) => st.filter((l) => ["env", "cfg", "der"].includes(l.t)).length;
for (const x of kinds(0)) for (const b of bases.slice(1)) add([x], b);
for (const x of kinds(0)) for (const y of kinds(1)) if (bound([x, y])) add([x, y], r.pick(bases));
const deep = () => { for (;;) { const st = Array.from({ length: r.range(3, c.thorough ? 5 : 4) }, (_, i) => r.pick(kinds(i))); const n = st.filter((l) => l.t === "env").length; if (bound(st) > 0 && n <= 2 && bound(st) <= 3) return st; } };
for (let i = 0; i < (c.thorough ? 600 : 60); i++) add(deep(), r.pick(bases));
const casesOf = (l: Layer) => l.t === "env" ? ["none", "ok", "range", "bad", "dot", "dotrange", "dotbad", "okdot", "rangedot"] : l.t === "cfg" || l.t === "der" ? ["none", "ok", "range"] : ["none"];
for (let i = 0; i < (c.thorough ? 20000 : 2500); i++) {
  const n = r.range(2, 3);
  const stacks = Array.from({ length: n }, () => { const st = r.bool(0.3) ? deep() : [r.pick(kinds(0)), ...(r.bool(0.6) ? [r.pick(kinds(1))] : [])]; return st; });
  const base = stacks.map(() => r.pick(bases));
  entries.push({ stacks, base, fixed: stacks.map((st, j) => ({ src: st.map((l) => r.bool(0.75) ? r.pick(["none", "ok", "dot", "okdot"].filter((x) => casesOf(l).includes(x))) : r.pick(casesOf(l))), cli: base[j] === "fail" ? "none" : r.bool(0.6) ? "none" : r.bool(0.8) ? "ok" : r.pick(["range", "bad"]) })) });
}
const m = await tlc(c.scratch, "Sources", { ENTRIES: ndjson(path.join(c.scratch, "entries.ndjson"), entries), CFG: ndjson(path.join(c.scratch, "cfg.ndjson"), [{ a: 1 }]) }, { workers: 8 });
c.states = m.states; c.transitions = m.transitions;

// ---- the spec's numbers as values of each base ----
const words = (v: number) => v === 99 ? "zz" : "w" + v;
const toValue = (base: string, v: number, n: number): any => base === "int" || base === "fail" ? v : base === "list" ? (v === 99 ? [[99], [], [1, 2, 3], [1, 99]][n % 4] : n % 2 ? [v] : [v, 5]) : words(v);
const toText = (base: string, v: number, n: number): string => v === -3 ? (base === "choice" || base === "str" ? "?!" : "not a number") : base === "list" ? toValue(base, v, n).join(",") : String(toValue(base, v, n));
const mapped = (v: any) => ({ mapped: v });
const wrapMaps = (base: string, v: number, n: number): any => { if (v === -5) return undefined; let k = Math.floor(v / 100000), x: any; const q = v % 100000; x = v < 0 || q === 99995 ? undefined : toValue(base, q, n); if (v > 0 && q === 99995) { k++; } for (; k > 0; k--) x = mapped(x); return x; };
const async1 = (p: any) => { const q = Object.create(p); Object.defineProperty(q, "mode", { value: "async", enumerable: true }); q.parse = async (s: string) => { await null; return p.parse(s); }; q.suggest = undefined; return q; };
const CHOICES = Array.from({ length: 60 }, (_, i) => words(i + 1));
const listParser: any = { mode: "sync", metavar: "LIST", placeholder: [], parse(s: string) { const xs = s === "" ? [] : s.split(",").map(Number); return xs.some(Number.isNaN) ? { success: false, error: C.message`no list` } : { success: true, value: xs }; }, format: (v: number[]) => v.join(",") };
// source parsers accept more than the option does; its own constraints decide
const looseWord: any = { mode: "sync", metavar: "W", placeholder: "", parse: (s: string) => s === "?!" ? { success: false, error: C.message`no word` } : { success: true, value: s }, format: (v: string) => v };
const envParser = (base: string) => base === "int" || base === "fail" ? C.integer() : base === "list" ? listParser : looseWord;
const cliParser = (base: string) => base === "int" || base === "list" ? C.integer({ min: 1, max: 60 }) : base === "str" ? C.string({ pattern: /^w\d+$/ }) : C.choice(CHOICES);

let uid = 0;
function makeStack(st: Layer[], base: string, src: string[], cli: string, j: number, n: number, as: boolean, world: any): any {
  const name = ["-x", "-z", "-w"][j];
  const vp = base === "fail" ? null : cliParser(base);
  const asy = as && base !== "fail" && r.bool(0.6);
  let p: any = base === "fail" ? C.fail() : (C.option as any)(name, asy ? async1(vp) : vp);
  if (base === "list") p = C.multiple(p, { min: 1, max: 2 });
  for (let i = st.length; i >= 1; i--) {
    const l = st[i - 1], cs = src[i - 1], d = l.dv === -1 ? {} : { default: toValue(base, l.dv, n) };
    switch (l.t) {
      case "env": {
        p = bindEnv(p, { context: world.envCtx(), key: `K${j}_${i}`, parser: asy && r.bool(0.5) ? async1(envParser(base)) : envParser(base), ...d });
        break;
      }
      case "cfg": {
        const key = `c${++uid}`, ctx = world.cfgCtx();
        if (cs !== "none") world.config[key] = toValue(base, cs === "ok" ? 30 + i : 99, n);
        p = bindConfig(p, { context: ctx, key: (r.bool(0.5) ? key : (x: any) => x[key]) as any, ...d });
        break;
      }
      case "der": {
        const key = `d${++uid}`, v = cs === "none" ? undefined : toValue(base, cs === "ok" ? 40 + i : 99, n);
        const dd = createDerivedDefaults({ [key]: as && r.bool(0.5) ? async () => v : () => v });
        world.contexts.push(dd.context);
        p = bindDerivedDefault(p, { context: dd.context as any, key: key as any, ...d });
        break;
      }
      case "optional": p = C.optional(p); break;
      case "dflt": p = C.withDefault(p, toValue(base, l.dv, n)); break;
      case "map": p = C.map(p, mapped); break;
      case "group": p = C.group("G", p); break;
    }
  }
  let argv: string[] = [];
  const many = (xs: number[]) => xs.flatMap((v) => [name, String(v)]);
  if (base === "list") argv = cli === "none" ? [] : cli === "ok" ? many(n % 2 ? [7] : [7, 5]) : cli === "range" ? many([[99], [7, 99], [7, 6, 5], [0]][n % 4]) : [name, "x1"];
  else if (cli !== "none") argv = [name, cli === "ok" ? toText(base, 7, 0) : cli === "range" ? toText(base, 99, 0) : toText(base, -3, 0)];
  return { p, argv, n };
}
function makeWorld(e: any, srcs: any[], ns: number[], as: boolean) {
  const w: any = { env: {}, config: {}, contexts: [] };
  const file: string[] = [];
  e.stacks.forEach((st: Layer[], j: number) => st.forEach((l, at) => {
    const i = at + 1;
    if (l.t !== "env") return;
    const vals: any = { none: [], ok: [10 + i], range: [99], bad: [-3], dot: [, 20 + i], dotrange: [, 99], dotbad: [, -3], okdot: [10 + i, 20 + i], rangedot: [99, 20 + i] };
    const [real, dot] = vals[srcs[j].src[at]], key = `K${j}_${i}`;
    if (real !== undefined) w.env[key] = toText(e.base[j], real, ns[j]);
    if (dot !== undefined) { const t = toText(e.base[j], dot, ns[j]); file.push(`${key}=${r.bool(0.5) ? JSON.stringify(t) : `'${t}'`}`); }
  }));
  const f = path.join(c.scratch, file.length ? "run.env" : "missing.env");
  if (file.length) writeFileSync(f, r.shuffle(file).join("\n") + "\n");
  let env: any, cfg: any;
  const share = r.bool(0.5);
  w.envCtx = () => {
    if (share && env) return env;
    env = createEnvContext({ source: (k: string) => w.env[k], envFile: f });
    w.contexts.push(env);
    return env;
  };
  w.cfgCtx = () => {
    if (share && cfg) return cfg;
    cfg = createConfigContext({ schema: { "~standard": { version: 1, vendor: "vp", validate: (v: any) => as && r.bool(0.5) ? Promise.resolve({ value: v }) : { value: v } } } as any });
    w.contexts.push(cfg);
    return cfg;
  };
  w.load = () => { const q = { config: w.config, meta: undefined }; return as && r.bool(0.5) ? Promise.resolve(q) : q; };
  return w;
}
const str = (x: string) => C.option(x as "-y", C.string());
type Enc = [string, (p: any) => any, string[], (v: any) => any];
const enclosures: Enc[] = [
  ["top", (p) => p, [], (v) => v],
  ["object", (p) => C.object({ x: p, y: C.optional(str("-y")) }), [], (v) => v.x],
  ["object with sibling", (p) => C.object({ x: p, y: C.optional(str("-y")) }), ["-y", "s"], (v) => v.x],
  ["tuple", (p) => C.tuple([C.optional(str("-y")), p]), [], (v) => v[1]],
  ["tuple with sibling", (p) => C.tuple([p, C.optional(str("-y"))]), ["-y", "s"], (v) => v[0]],
  ["merge", (p) => C.merge(C.object({ y: C.optional(str("-y")) }), C.object({ x: p })), [], (v) => v.x],
  ["merge with sibling", (p) => C.merge(C.object({ x: p }), C.object({ y: C.optional(str("-y")) })), ["-y", "s"], (v) => v.x],
  ["concat", (p) => C.concat(C.tuple([p]), C.tuple([C.optional(str("-y"))])), [], (v) => v[0]],
  ["command", (p) => C.or(C.command("go", C.object({ x: p, y: C.optional(str("-y")) })), C.command("no", C.object({ q: C.constant(1) }))), ["go"], (v) => v.x],
  ["command top", (p) => C.command("go", p), ["go"], (v) => v],
  ["group", (p) => C.group("Out", C.object({ x: p, y: C.optional(str("-y")) })), [], (v) => v.x],
  ["or", (p) => C.or(C.object({ x: p, y: str("-y") }), C.command("go", C.object({}))), ["-y", "s"], (v) => v.x],
  ["longestMatch", (p) => C.longestMatch(C.object({ x: p, y: str("-y") }), C.command("go", C.object({}))), ["-y", "s"], (v) => v.x],
  ["conditional", (p) => C.conditional(C.option("-k", C.choice(["k", "j"])), { k: C.object({ x: p }), j: C.object({}) }), ["-k", "k"], (v) => v[1].x],
  ["nested objects", (p) => C.object({ o: C.object({ x: p }), y: C.optional(str("-y")) }), [], (v) => v.o.x],
  ["seq", (p) => C.seq(C.optional(str("-y")), p), [], (v) => v[1]],
];
// the same value below one or two further constructs
const inner: [string, (p: any) => any, (v: any) => any][] = [
  ["tuple", (p) => C.tuple([p]), (v) => v[0]], ["object", (p) => C.object({ a: p }), (v) => v.a], ["seq", (p) => C.seq(p), (v) => v[0]],
  ["merge", (p) => C.merge(C.object({ a: p }), C.object({ q: C.constant(1) })), (v) => v.a], ["concat", (p) => C.concat(C.tuple([p]), C.tuple([C.constant(1)])), (v) => v[0]],
  ["group", (p) => C.group("I", p), (v) => v], ["map", (p) => C.map(p, (v: any) => [v]), (v) => v[0]], ["withDefaults", (p) => C.object({ a: p, z: C.withDefault(str("-q" + uid++), "q") }), (v) => v.a],
];
for (const i of inner) for (const j of inner) {
  if (i[0] === "map" && j[0] === "map") continue;
  enclosures.push([`object of ${i[0]} of ${j[0]}`, (p) => C.object({ x: i[1](j[1](p)), y: C.optional(str("-y")) }), [], (v) => j[2](i[2](v.x))]);
  enclosures.push([`tuple of ${i[0]} of ${j[0]}`, (p) => C.tuple([i[1](j[1](p)), C.optional(str("-y"))]), ["-y", "s"], (v) => j[2](i[2](v[0]))]);
}
const seeded = enclosures.filter((x) => !["top", "command top", "conditional"].includes(x[0]));
const ERR = { failed: true };
async function go(p: any, world: any, argv: string[], as: boolean) {
  const o: any = { args: argv, stdout() {}, stderr() {}, contextOptions: { load: world.load }, onError: () => ERR };
  try { return as ? await runWith(p, "p", r.shuffle([...world.contexts]), o) : runWithSync(p, "p", r.shuffle([...world.contexts]), o); }
  catch (e: any) { return { crash: String(e?.stack ?? e).slice(0, 300) }; }
}
const same = (a: any, b: any) => JSON.stringify(a) === JSON.stringify(b) && (a === undefined) === (b === undefined);
const counts: Record<string, number> = {};
const show = (st: Layer[]) => st.map((l) => l.t + (l.dv === -1 ? "" : "=" + l.dv)).join(">") || "-";
let open = 0;
const per = c.thorough ? 6 : 1;
for (const row of m.rows) {
  if (row.open) { open++; continue; }
  const e = entries[row.e - 1];
  for (let k = 0; k < per; k++) {
    const as = r.bool(0.4), srcs = row.cli === "fixed" ? e.fixed : [{ src: row.src, cli: row.cli }];
    const ns = e.stacks.map(() => r.int(12)), world = makeWorld(e, srcs, ns, as);
    const made = e.stacks.map((st: Layer[], j: number) => makeStack(st, e.base[j], srcs[j].src, srcs[j].cli, j, ns[j], as, world));
    let p: any, argv: string[], get: (v: any) => any[], name: string;
    if (made.length === 1) {
      // the config and derived passes need something the first pass can complete (K2)
      const late = e.stacks[0].some((l: Layer) => l.t === "cfg" || l.t === "der");
      const [nm, wrap, pre, ex] = r.bool(0.6) ? r.pick((late ? seeded : enclosures).slice(0, 13)) : r.pick(late ? seeded : enclosures);
      name = nm;
      p = wrap(made[0].p); get = (v) => [ex(v)];
      argv = nm === "seq" ? [...made[0].argv] : [...pre, ...made[0].argv];
      if (nm.includes("sibling") && r.bool(0.5)) argv = [...made[0].argv, ...pre];
    } else {
      const f = Object.fromEntries(made.map((q: any, j: number) => ["f" + j, q.p]));
      name = r.pick(["object", "merge", "tuple", "command"]);
      const y = C.optional(str("-y"));
      f.y = y;
      p = name === "merge" ? (C.merge as any)(C.object({ y }), ...made.map((q: any, j: number) => C.object({ ["f" + j]: q.p }))) : name === "tuple" ? C.tuple([...made.map((q: any) => q.p), y]) : name === "command" ? C.command("go", C.object(f)) : C.object(f);
      get = name === "tuple" ? (v) => v : (v) => made.map((_: any, j: number) => v["f" + j]);
      argv = [...(name === "command" ? ["go"] : []), ...r.shuffle(made.map((q: any) => q.argv)).flat() as string[]];
    }
    const got = await go(p, world, argv, as);
    c.traces++;
    const fails = row.out.some((o: any) => o.k !== "ok");
    const want = row.out.map((o: any, j: number) => o.k === "ok" ? wrapMaps(e.base[j], o.v, made[j].n) : o.k);
    const key = `${name} ${e.stacks.map((st: Layer[], j: number) => `${e.base[j]}:${show(st)} ${srcs[j].cli}/${srcs[j].src.join(",")}`).join(" | ")}`;
    const d = { enclosure: name, argv, stacks: e.stacks, base: e.base, sources: srcs, async: as, want: fails ? "failure" : want };
    counts[fails ? (row.out.some((o: any) => o.k === "bad") ? "invalid" : "missing") : "value"] = (counts[fails ? (row.out.some((o: any) => o.k === "bad") ? "invalid" : "missing") : "value"] ?? 0) + 1;
    if (got?.crash) c.violation(key + " crash", { ...d, got });
    else if (fails ? got !== ERR : got === ERR) c.violation(key + (fails ? " accepted" : " rejected"), { ...d, got: got === ERR ? "failure" : got });
    else if (!fails) {
      const have = get(got);
      if (have.some((v, j) => !same(v, want[j]))) c.violation(key + " value", { ...d, got: have });
    }
    if (made.length > 1 || e.stacks[0].length > 3) c.sample({ key, argv, want: fails ? "failure" : want }, 5);
  }
}
// ---- recorded defects: fixed inputs, judged like everything else ----
{
  const cfg = (v: any) => { const ctx = createConfigContext({ schema: { "~standard": { version: 1, vendor: "vp", validate: (x: any) => ({ value: x }) } } as any }); return { ctx, load: () => ({ config: { k: v }, meta: undefined }) }; };
  const bind = (w: any, p: any = C.option("-x", C.integer())) => bindConfig(p, { context: w.ctx, key: "k" as never });
  const probe = async (key: string, w: any, p: any, argv: string[], want: any) => {
    const world = { contexts: [w.ctx], load: w.load };
    const got = await go(p, world, argv, false);
    c.traces++;
    if (!same(got, want)) c.violation(key, { argv, want, got: got === ERR ? "failure" : got });
  };
  if (c.id === "C14") {
    let w = cfg(undefined);
    await probe("withDefault(bindConfig(option)) without a config value", w, C.object({ x: C.withDefault(bind(w), 1), y: C.optional(str("-y")) }), [], { x: 1 });
    const dd = createDerivedDefaults({ k: () => undefined });
    await probe("withDefault(bindDerivedDefault(option)) without a derived value", { ctx: dd.context, load: () => ({}) }, C.object({ x: C.withDefault(bindDerivedDefault(C.option("-x", C.integer()), { context: dd.context as any, key: "k" as any }), 1), y: C.optional(str("-y")) }), [], { x: 1 });
    w = cfg(5);
    await probe("bindConfig(option) alone", w, bind(w), [], 5);
    await probe("command(bindConfig(option))", w, C.command("go", bind(w)), ["go"], 5);
    await probe("object({x: bindConfig(option)})", w, C.object({ x: bind(w) }), [], { x: 5 });
  }
}
c.extra = { stacks: entries.filter((e) => e.fixed.length === 0).length, combinations: entries.filter((e) => e.fixed.length).length, outcomes: counts, skippedOpen: open, enclosures: enclosures.length };
c.finish();
