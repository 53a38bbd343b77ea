// C17: prompting parsers.  Every behaviour of Prompts.tla (grammars of prompts
// and plain options under source bindings and wrappers x command lines x
// answers) is executed with a prompt adapter that records its executions.
import path from "node:path";
import * as C from "@optique/core";
import { runWith } from "@optique/core/facade";
import { createPromptAdapter } from "@optique/prompt";
import { bindEnv, createEnvContext } from "@optique/env";
import { bindConfig, createConfigContext } from "@optique/config";
import { bindDerivedDefault, createDerivedDefaults } from "@optique/derived-defaults";
import { Check } from "../lib/check.ts";
import { Rng } from "../lib/rng.ts";
import { ndjson, tlc } from "../lib/tlc.ts";

const c = new Check("C17");
const r = new Rng(c.seed * 99991 + 17);
type Layer = { t: string; st: string; dv: number };
const L = (t: string, st = "none", dv = -1): Layer => ({ t, st, dv });
const source = (late: boolean): Layer => L(late ? r.pick(["env", "cfg", "der"]) : "env", r.pick(["none", "none", "none", "ok", "bad"]), r.bool(0.1) ? 1 : -1);
const innerLayers = (late: boolean): Layer[] => r.pick([() => [], () => [], () => [source(late)], () => [source(late)], () => [L("map")], () => [L("optional")], () => [L("dflt")], () => [L("group")], () => [L("optional"), source(late)], () => [L("dflt"), source(late)], () => [L("map"), source(late)], () => [source(late), L("map")], () => [source(late), source(late)], () => [source(late), L("group")]])();
const outerLayers = (late: boolean): Layer[] => r.pick([() => [], () => [], () => [], () => [], () => [L("map")], () => [L("group")], () => [source(false)], () => [L("map"), L("group")], () => [L("map"), source(false)]])();
const once = (ls: Layer[]) => ls.filter((l, i) => l.t === "map" || ls.findIndex((x) => x.t === l.t) === i);
const P = (late: boolean, extra: any = {}) => {
  const base = r.pick(["opt", "opt", "opt", "list", "flag", "fail", "arg"]);
  const all = once([...outerLayers(late).map((l) => ({ ...l, o: 1 })), ...(base === "opt" || base === "arg" ? innerLayers(late) : []).map((l) => ({ ...l, o: 0 }))] as any) as any[];
  const cut = all.map(({ o, ...l }) => [o, l]);
  return { k: "p", out: cut.filter((x) => x[0]).map((x) => x[1]), in: cut.filter((x) => !x[0]).map((x) => x[1]), base, ans: r.pick(["ok", "ok", "ok", "ok", "ok", "fail", "throw"]), cli: base === "fail" ? "none" : base === "flag" ? "good" : "any", ...extra };
};
const plain = (k: string, extra: any = {}) => ({ k, out: [], in: [], base: "opt", ans: "ok", cli: "any", ...extra });
const fieldsOf = (late: boolean, np: number, nq: number, narg = { n: 1 }) => r.shuffle([
  ...Array.from({ length: np }, () => { let f: any = P(late); if (f.base === "arg" && narg.n-- <= 0) f = { ...f, base: "opt" }; return f; }),
  ...Array.from({ length: nq }, () => plain(r.pick(["req", "req", "opt", "dflt"])))]);
const noDisc = { k: "none", nk: 0, env: 0, key: 0, ans: "ok" };
const entries: any[] = [];
const flatShapes = ["object", "object", "tuple", "merge", "concat", "command", "group", "nested", "top", "object in tuple", "alone"];
for (let i = 0; i < (c.thorough ? 1500 : 240); i++) {
  const kind = r.pick(["flat", "flat", "flat", "cmds", "objs", "cond"]), late = r.bool(0.3), narg = { n: 1 };
  const cap = (fs: any[]) => { let room = 2; for (const f of fs) if (f.cli !== "none" && room-- <= 0) f.cli = r.pick(["none", "none", "ok"]); return fs; };
  if (kind === "flat") {
    const shape = r.pick(flatShapes), np = shape === "top" || shape === "alone" ? 1 : r.pick([1, 2, 2, 3, 4]);
    const fs = shape === "top" || shape === "alone" ? [P(late)] : fieldsOf(late, np, r.pick([0, 0, 1, 2]), shape === "merge" ? { n: 0 } : narg);
    if (shape === "top" && fs[0].out.concat(fs[0].in).some((l: Layer) => l.t === "cfg" || l.t === "der")) { i--; continue; }
    entries.push({ shape, cut: r.int(fs.length + 1), alts: [{ fields: cap(fs) }], disc: noDisc, selector: false, strict: ["object", "command", "group"].includes(shape), extras: r.bool(0.3) });
  } else if (kind === "cmds") {
    const a = () => ({ fields: cap(fieldsOf(late, r.range(0, 2), r.int(2), { n: 1 })) });
    entries.push({ shape: r.pick(["or", "longestMatch"]) + " of commands", cut: 0, alts: [a(), a(), ...(r.bool(0.3) ? [a()] : [])], disc: noDisc, selector: false, strict: true, extras: r.bool(0.3) });
  } else if (kind === "objs") {
    const a = () => ({ fields: cap([...fieldsOf(late, r.range(1, 2), 0, { n: 0 }), plain("req")]) });
    entries.push({ shape: r.pick(["or", "longestMatch"]) + " of objects", cut: 0, alts: [a(), a()], disc: noDisc, selector: true, strict: true, extras: r.bool(0.3) });
  } else {
    const nk = 2, a = () => ({ fields: cap(fieldsOf(false, r.range(0, 2), r.int(2), { n: 0 })) });
    const k = r.pick(["p", "p", "req"]);
    entries.push({ shape: "conditional", cut: 0, alts: [a(), a(), ...(k === "req" && r.bool() ? [a()] : [])], disc: { k, nk, env: k === "p" && r.bool(0.3) ? r.range(1, 2) : 0, key: r.range(1, 2), ans: r.pick(["ok", "ok", "ok", "fail", "throw"]) }, selector: false, strict: false, extras: r.bool(0.3) });
  }
}
for (const e of entries) for (const a of e.alts) for (const f of a.fields) f.sel = false;
const m = await tlc(c.scratch, "Prompts", { ENTRIES: ndjson(path.join(c.scratch, "entries.ndjson"), entries) }, { workers: 8 });
c.states = m.states; c.transitions = m.transitions;

// ---- the real thing ----
let log: string[] = [], running = 0, overlap = false;
const prompt = createPromptAdapter<any>({
  execute: async (q: any) => {
    log.push(q.id);
    if (running++ > 0) overlap = true;
    await new Promise((ok) => setTimeout(ok, 0));
    running--;
    if (q.ans === "throw") throw new Error("boom " + q.id);
    return q.ans === "fail" ? { success: false, error: C.message`no answer` } : { success: true, value: q.value };
  },
} as any);
const CLI = 7, MAX = 90;
const mapped = (v: any) => ({ mapped: v });
const rep = (v: any, n: number): any => n > 0 ? rep(mapped(v), n - 1) : v;
function makeField(f: any, id: string, w: any) {
  const n = w.n++, base = f.base, int = () => C.integer({ min: 1, max: MAX });
  let p: any;
  const names = ["-" + "abcdefghijklmnopqrstuvwxyz"[n]];
  if (f.k !== "p") {
    p = C.option(names[0] as "-x", int());
    if (f.k === "opt") p = C.optional(p);
    if (f.k === "dflt") p = C.withDefault(p, 60);
    return { p, argv: (ok: boolean) => [names[0], ok ? String(CLI) : "x"], want: (v: any) => v.tag === "cli" ? CLI : v.tag === "dv" ? 60 : undefined };
  }
  p = base === "opt" ? C.option(names[0] as "-x", int()) : base === "arg" ? C.argument(int()) : base === "list" ? C.multiple(C.option(names[0] as "-x", int())) : base === "flag" ? C.flag(names[0] as "-x") : C.fail();
  const all = [...f.out, ...f.in], mapsIn = (ls: Layer[]) => ls.filter((l) => l.t === "map").length;
  let depth = all.length;
  const val = (i: number, kind: number) => 10 + n * 5 + i + kind * 40; // i: layer, kind 0: source, 1: default
  const raw = (i: number, kind: number) => rep(val(i, kind), mapsIn(all.slice(i)));
  const wrap = (l: Layer, i: number) => {
    const key = `K${n}_${i}`, m = mapsIn(all.slice(i + 1)), lift = (v: any) => rep(base === "list" ? [v] : v, m);
    const d = l.dv === -1 ? {} : { default: lift(val(i, 1)) }, bad = m > 0 || base === "list" ? "junk" : 95;
    switch (l.t) {
      case "map": p = C.map(p, mapped); break;
      case "group": p = C.group("G" + i, p); break;
      case "optional": p = C.optional(p); break;
      case "dflt": p = C.withDefault(p, rep(61, m)); break;
      case "env": {
        const vp: any = m === 0 && base !== "list" ? C.integer() : { mode: "sync", metavar: "M", placeholder: lift(1), parse: (s: string) => /^\d+$/.test(s) ? { success: true, value: lift(Number(s)) } : { success: false, error: C.message`bad` }, format: () => "m" };
        if (l.st !== "none") w.env[key] = l.st === "ok" ? String(val(i, 0)) : r.bool() && m === 0 && (base === "opt" || base === "arg") ? "95" : "junk";
        p = bindEnv(p, { context: w.envCtx, key, parser: vp, ...d } as any); break;
      }
      case "cfg": {
        if (l.st === "bad" && m > 0) throw new Error("unreachable");
        if (l.st !== "none") w.config[key] = l.st === "ok" ? lift(val(i, 0)) : bad;
        p = bindConfig(p, { context: w.cfgCtx, key, ...d } as any); break;
      }
      case "der": {
        if (l.st !== "none") w.derived[key] = l.st === "ok" ? lift(val(i, 0)) : bad;
        const dd = createDerivedDefaults({ [key]: r.bool() ? async () => w.derived[key] : () => w.derived[key] });
        w.der.push(dd.context);
        p = bindDerivedDefault(p, { context: dd.context, key, ...d } as any); break;
      }
    }
  };
  for (let i = all.length - 1; i >= f.out.length; i--) wrap(all[i], i);
  const answer = f.base === "flag" ? true : f.base === "list" ? [val(4, 0), CLI] : rep(val(4, 0), mapsIn(f.in));
  p = prompt(p, { id, ans: f.ans, value: answer });
  for (let i = f.out.length - 1; i >= 0; i--) wrap(all[i], i);
  const cli = base === "flag" ? true : base === "list" ? [CLI] : CLI;
  const want = (v: any) => v.k === "ask" ? rep(answer, mapsIn(f.out)) : v.tag === "cli" ? rep(cli, v.m) : rep(rep(base === "list" ? [val(v.i - 1, v.tag === "src" ? 0 : 1)] : val(v.i - 1, v.tag === "src" ? 0 : 1), mapsIn(all.slice(v.i))), v.m);
  return { p, argv: (ok: boolean) => base === "flag" ? ok ? [names[0]] : [names[0] + "=z"] : base === "arg" ? [ok ? String(CLI) : "x"] : [names[0], ok ? String(CLI) : "x"], want };
}
const passSchema: any = { "~standard": { version: 1, vendor: "x", validate: (v: any) => ({ value: v }) } };
function world(): any {
  const w: any = { n: 0, env: {}, config: {}, derived: {}, der: [] };
  w.envCtx = createEnvContext({ source: (k: string) => w.env[k] });
  w.cfgCtx = createConfigContext({ schema: passSchema });
  return w;
}
const obj = (ps: any[]) => C.object(Object.fromEntries(ps.map((p, i) => ["f" + i, p])));
const get = (v: any, n: number) => Array.from({ length: n }, (_, i) => v["f" + i]);
const half = (ps: any[], cut: number, from = 0) => C.object(Object.fromEntries(ps.map((p, i) => ["f" + (i + from), p] as const)));
function build(e: any, w: any) {
  const alts = e.alts.map((a: any, ai: number) => a.fields.map((f: any, i: number) => makeField(f, `${ai + 1}.${i + 1}`, w)));
  const ps = (i: number) => alts[i].map((x: any) => x.p);
  const a = ps(0), n = a.length;
  switch (e.shape) {
    case "object": return { alts, p: obj(a), get, pre: [] };
    case "tuple": return { alts, p: C.tuple(a), get: (v: any) => v, pre: [] };
    case "merge": return { alts, p: C.merge(half(a.slice(0, e.cut), 0), half(a.slice(e.cut), 0, e.cut)), get, pre: [] };
    case "concat": return { alts, p: C.concat(C.tuple(a.slice(0, e.cut)), C.tuple(a.slice(e.cut))), get: (v: any) => v, pre: [] };
    case "command": return { alts, p: C.command("go", obj(a)), get, pre: ["go"] };
    case "group": return { alts, p: C.group("G", obj(a)), get, pre: [] };
    case "nested": return { alts, p: C.object({ z: C.constant(1), q: obj(a) }), get: (v: any, k: number) => get(v.q, k), pre: [] };
    case "object in tuple": return { alts, p: C.tuple([C.constant(1), obj(a)]), get: (v: any, k: number) => get(v[1], k), pre: [] };
    case "top": return { alts, p: a[0], get: (v: any) => [v], pre: [] };
    case "alone": return { alts, p: C.object({ f0: a[0], z: C.constant(1) }), get, pre: [] };
    case "conditional": {
      const keys = ["u", "v"];
      let d: any = C.option("--kind", C.choice(keys));
      if (e.disc.k === "p") {
        if (e.disc.env || r.bool(0.3)) { if (e.disc.env) w.env.KIND = keys[e.disc.env - 1]; d = bindEnv(d, { context: w.envCtx, key: "KIND", parser: C.choice(keys) } as any); }
        d = prompt(d, { id: "0.0", ans: e.disc.ans, value: keys[e.disc.key - 1] });
      }
      const branches: any = { u: obj(ps(0)), v: obj(ps(1)) };
      const p = alts.length > 2 ? C.conditional(d, branches, obj(ps(2))) : C.conditional(d, branches);
      return { alts, p, get: (v: any, k: number) => get(v[1], k), pre: [], keyOf: (v: any) => v[0], keys };
    }
    default: {
      const f: any = e.shape.startsWith("or") ? C.or : C.longestMatch;
      const cmd = e.shape.endsWith("commands");
      const p = f(...alts.map((_: any, i: number) => cmd ? C.command("c" + (i + 1), obj(ps(i))) : obj(ps(i))));
      return { alts, p, get, pre: null };
    }
  }
}
const show = (ls: Layer[]) => ls.map((l) => l.t + ("env cfg der".includes(l.t) ? "@" + l.st : "") + (l.dv === -1 ? "" : "=d")).join(">");
const showF = (f: any) => f.k !== "p" ? f.k : `${f.out.length ? show(f.out) + ">" : ""}prompt${f.ans === "ok" ? "" : "!" + f.ans}(${f.in.length ? show(f.in) + ">" : ""}${f.base})`;
// the allowed outcomes of each choice
const groups = new Map<string, any[]>();
for (const row of m.rows) { const k = JSON.stringify([row.e, row.alt, row.cli, row.line, row.dk]); const g = groups.get(k); if (g) g.push(row); else groups.set(k, [row]); }
const seqOf = (s: any[]) => s.map((q) => q[0] === 0 || q[1] === 0 ? "0.0" : `${q[0]}.${q[1]}`).join(" ");
const counts: Record<string, number> = {};
const FAIL = { failed: true };
for (const rows of groups.values()) {
  const row = rows[0], e = entries[row.e - 1], w = world();
  const all = e.alts.flatMap((a: any) => a.fields).flatMap((f: any) => [...f.out, ...f.in]);
  let g: any;
  try { g = build(e, w); } catch (err: any) { if (err.message === "unreachable") continue; throw err; }
  const twoPass = all.some((l: Layer) => l.t === "cfg" || l.t === "der");
  const toks = row.cli.map((x: string, i: number) => x === "none" ? [] : g.alts[row.alt - 1][i].argv(x === "ok"));
  const body = r.shuffle(toks) as string[][];
  if (row.dk > 0) body.unshift(["--kind", g.keys[row.dk - 1]]);
  const pre = g.pre ?? (e.shape.endsWith("commands") ? ["c" + row.alt] : []);
  const argv = [...pre, ...body.flat()];
  if (row.line === "junk") argv.push("--zzz");
  const contexts: any[] = [];
  if (all.some((l: Layer) => l.t === "env") || e.disc.env || e.disc.k === "p") contexts.push(w.envCtx);
  if (all.some((l: Layer) => l.t === "cfg")) contexts.push(w.cfgCtx);
  contexts.push(...w.der);
  log = []; overlap = false; running = 0;
  let res = "", vals: any, err = "";
  const viaRun = contexts.length > 0 || row.line === "help" || r.bool(0.4);
  try {
    if (row.line === "suggest") {
      await C.suggestAsync(g.p, [...argv, r.pick(["", "-", "--"])] as any);
      await C.getDocPageAsync(g.p, argv);
      res = "suggest";
    } else if (viaRun) {
      const v: any = await runWith(g.p, "p", r.shuffle(contexts), { args: row.line === "help" ? r.pick([[...argv, "--help"], ["--help", ...argv]]) : argv, stdout() {}, stderr: (x: string) => { err += x; }, onError: () => FAIL, help: { option: true, onShow: () => ({ helped: true }) }, contextOptions: { load: () => ({ config: w.config, meta: undefined }) } } as any);
      res = v === FAIL ? "fail" : v?.helped ? "help" : "ok"; vals = v;
    } else {
      const v: any = await C.parseAsync(g.p, argv);
      res = v.success ? "ok" : "fail"; vals = v.value;
    }
  } catch (x: any) { res = String(x?.message ?? x).startsWith("boom ") ? "throw" : "crash"; err = String(x?.stack ?? x).slice(0, 300); }
  // recorded defects: what the provisional pass asks when it fails
  if (twoPass && row.line !== "help" && row.line !== "suggest" && !rows.some((x) => x.res === "ok")) continue;
  c.traces++;
  counts[res] = (counts[res] ?? 0) + 1;
  const asked = log.join(" ");
  const fits = rows.filter((x) => x.res === res && (twoPass ? [...x.first, ...x.asked] : x.asked).length === log.length && seqOf([...x.first, ...x.asked]) === asked);
  let ok = fits.length > 0, want: any;
  if (ok && res === "ok") {
    const x = fits[0];
    want = x.vals.map((v: any, i: number) => v.tag === "undef" ? undefined : g.alts[x.branch - 1][i].want(v));
    const got = g.get(vals, want.length);
    ok = JSON.stringify(got) === JSON.stringify(want);
    if (g.keyOf && ok) ok = (g.keyOf(vals) ?? "") === (row.branch > 2 ? "" : g.keys[x.branch - 1]);
    if (!ok) want = { want, got, vals };
  }
  if (ok && overlap) { ok = false; want = "two questions at the same time"; }
  const key = `${e.shape} ${e.shape === "conditional" ? (e.disc.k === "p" ? `prompt${e.disc.env ? "@env" : ""}!${e.disc.ans} ` : "option ") : ""}${e.alts.map((a: any) => "[" + a.fields.map(showF).join(", ") + "]").join(" | ")} ${JSON.stringify(argv)}${row.line === "plain" ? "" : " " + row.line}`;
  if (!ok) c.violation(key, { argv, got: { res, asked, err }, want: want ?? rows.slice(0, 6).map((x) => ({ res: x.res, first: seqOf(x.first), asked: seqOf(x.asked) })), cut: e.cut });
  else if (res === "ok" && log.length > 1) c.sample({ grammar: key, asked, vals });
}
// ---- recorded defects ----
{
  const q = (id: string) => prompt(C.option(("-" + id) as "-x", C.integer()), { id, ans: "ok", value: 1 }) as any;
  const probe = async (key: string, p: any, want: string) => {
    log = []; overlap = false; running = 0;
    const v: any = await C.parseAsync(p, []);
    c.traces++;
    if (!v.success || overlap || log.join(" ") !== want) c.violation(key, { asked: log.join(" "), overlap, want });
  };
  const cfg = createConfigContext({ schema: passSchema });
  const two = async (key: string, p: any, argv: string[], want: (s: string, v: any) => boolean) => {
    log = []; overlap = false; running = 0;
    const v: any = await runWith(p, "p", [cfg], { args: argv, stdout() {}, stderr() {}, onError: () => FAIL, contextOptions: { load: () => ({ config: { b: 5 }, meta: undefined }) } } as any);
    c.traces++;
    if (!want(log.join(" "), v)) c.violation(key, { asked: log.join(" "), v });
  };
  const late = () => C.withDefault(bindConfig(C.option("-b", C.integer()), { context: cfg, key: "b" } as any), 3);
  await two("object({a: prompt, b: bindConfig(option)}) --zzz", C.object({ a: q("a"), b: late() }), ["--zzz"], (s, v) => s === "" && v === FAIL);
  await two("tuple([prompt, bindConfig(option), flag]) without the flag", C.tuple([q("a"), late(), C.flag("-f")]), [], (s, v) => s.split(" ").length <= 2 && v === FAIL);
  await two("prompt(map(optional(option))) with a context", C.object({ a: prompt(C.map(C.optional(C.option("-a", C.integer())), mapped), { id: "a", ans: "ok", value: { mapped: 1 } }) as any }), [], (s, v) => s.startsWith("a") && v?.a?.mapped === 1);
  await probe("object({q: object({a: prompt}), r: object({b: prompt})})", C.object({ q: C.object({ a: q("a") }), r: C.object({ b: q("b") }) }), "a b");
  await probe("object({a: prompt, q: object({b: prompt})})", C.object({ a: q("a"), q: C.object({ b: q("b") }) }), "a b");
}
c.extra = { grammars: entries.length, outcomes: counts };
c.assumptions = ["answers are of the field's type", "at most one positional prompt per grammar", "fallback wrappers (optional, withDefault, multiple) outside a prompt and below a source binding inside it are not generated"];
c.finish();
