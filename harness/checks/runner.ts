// C18 and C19: the runner.  TLC explores command lines over small grammars
// and meta configurations; each is run through runParser() (sync and async)
// and through @optique/run's run(); kinds of outcome, values, streams, exit
// codes and the number of callback calls are compared.
import path from "node:path";
import { spawn } from "node:child_process";
import { runParser } from "@optique/core/facade";
import { run, runAsync as runA, runSync as runS } from "@optique/run";
import { Check } from "../lib/check.ts";
import { a, ac, b, cmd, cond, dfl, f, lm, multi, o, obj, oc, oi, opt, or, pass, seq, tup, k, merge, grp, map } from "../lib/dsl.ts";
import { Argv, Gen } from "../lib/gen.ts";
import { profiles } from "../lib/profiles.ts";
import { Rng } from "../lib/rng.ts";
import { build } from "../lib/ast.ts";
import { tryBuild } from "../lib/run.ts";
import { ndjson, tlc } from "../lib/tlc.ts";
import { encode, sameValue } from "../lib/value.ts";

interface Cfg { ho: string[]; hc: string[]; vo: string[]; vc: string[]; co: string[]; cc: string[] }
const FULL: Cfg = { ho: ["--help"], hc: ["help"], vo: ["--version"], vc: ["version"], co: ["--completion"], cc: ["completion"] };
const OPTS: Cfg = { ...FULL, hc: [], vc: [], cc: [] };
const CMDS: Cfg = { ...FULL, ho: [], vo: [], co: [] };
const NAMES: Cfg = { ho: ["-h", "--help", "/H"], hc: ["hlp", "h"], vo: ["-V", "--ver"], vc: ["ver"], co: ["--comp", "--sh"], cc: ["comp", "cmp"] };
const NONE: Cfg = { ho: [], hc: [], vo: [], vc: [], co: [], cc: [] };
const MIX: Cfg = { ...NONE, ho: ["--help"], vc: ["version"], cc: ["completion"] };
const cfgs = [FULL, OPTS, CMDS, NAMES, NONE, MIX];
const shells = ["bash", "fish", "nu", "pwsh", "zsh"];

function cfgRecord(g: any, c: Cfg) {
  const hh = cmd(c.hc[0] ?? "help", multi(a()), ...c.hc.slice(1));
  const hv = cmd(c.vc[0] ?? "version", obj({}), ...c.vc.slice(1));
  const hp = cmd(c.cc[0] ?? "completion", obj({ shell: opt(a()), args: multi(a()) }), ...c.cc.slice(1));
  const co = c.co.map((n) => o(n));
  const parts = [g, ...(c.hc.length ? [hh] : []), ...(c.vc.length ? [hv] : []), ...(c.cc.length ? [hp] : []),
    ...(c.ho.length ? [f(...c.ho)] : []), ...(c.vo.length ? [f(...c.vo)] : []),
    ...(c.co.length ? [obj({ shell: co.length === 1 ? co[0] : lm(...co), args: multi(a()) })] : [])];
  return { ...c, shells, hg: parts.length === 1 ? g : lm(...parts), hh, hv, hp };
}
/** options of runParser() for a configuration; events are appended to log */
function coreOptions(c: Cfg, log: [string, unknown][]) {
  const sub = (names: string[], dflt: string) => (names.length === 0 ? undefined : names.length === 1 && names[0] === dflt ? true : { names });
  const part = (opts: string[], od: string, cmds: string[], cd: string, kind: string) => {
    const option = sub(opts, od), command = sub(cmds, cd);
    if (!option && !command) return undefined;
    return { ...(option ? { option } : {}), ...(command ? { command } : {}), onShow: (code: number) => { log.push([kind, code]); return MARK; } };
  };
  const help = part(c.ho, "--help", c.hc, "help", "help");
  const version = part(c.vo, "--version", c.vc, "version", "version");
  const completion = part(c.co, "--completion", c.cc, "completion", "completion");
  return {
    ...(help ? { help } : {}), ...(version ? { version: { ...version, value: "1.2.3" } } : {}), ...(completion ? { completion } : {}),
    onError: (code: number) => { log.push(["error", code]); return MARK; },
    stdout: (s: string) => { log.push(["out", s]); }, stderr: (s: string) => { log.push(["err", s]); },
  } as any;
}
const MARK = Symbol("callback result");
type Obs = { k: string; v: any; note?: string };
function judge(log: [string, unknown][], value: unknown): Obs {
  const cb = log.filter(([n]) => n !== "out" && n !== "err"), out = log.filter(([n]) => n === "out").length, err = log.filter(([n]) => n === "err").length;
  const V = { k: "u", v: "" };
  if (cb.length === 0) return value === MARK ? { k: "lost", v: V } : { k: "value", v: encode(value), ...(out || err ? { note: "a successful run wrote output" } : {}) };
  const [kind, code] = cb[0];
  const note = cb.length > 1 ? `callbacks ${cb.map((x) => x[0])}` : value !== MARK ? "the callback's result was not returned"
    : code !== (kind === "error" ? 1 : 0) ? `${kind} callback received ${code}`
    : kind === "error" ? (out ? "an error wrote to standard output" : err ? undefined : "an error wrote nothing")
    : err ? `${kind} wrote to standard error` : undefined;
  if (kind !== "completion") return { k: kind, v: V, note: note ?? (kind !== "error" && !out ? `${kind} wrote nothing` : kind === "version" && (out !== 1 || !String(log.find(([n]) => n === "out")![1]).includes("1.2.3")) ? "the version was not written" : undefined) };
  // a completion script defines a function or completer; suggestions do not
  const text = log.filter(([n]) => n === "out").map((x) => String(x[1])).join("");
  return { k: /function|complete|def |Register-ArgumentCompleter|compdef/.test(text) ? "script" : "suggest", v: V, note };
}
const crash = (e: any): Obs => ({ k: "crash", v: { k: "s", v: String(e?.message ?? e) } });

const c = new Check(process.argv[2]);
const streams = c.id === "C19";
const cap = c.thorough ? 8000 : streams ? 200 : 330;

const grams: [any, string[]][] = [
  [obj({ x: opt(o("-x", "--xx")), r: multi(a()) }), ["-x v0", "-x --help", "--help", "--version", "--", "v1", "--bad", "help", "--completion bash"]],
  [obj({ x: opt(o("-x")), n: oi(0, 9, "-n") }), ["-n 5", "-n bad", "--help", "--version", "help", "version", "completion bash", "--completion=zsh", "--"]],
  [obj({ v: opt(f("-v")), c: or(cmd("go", obj({ x: opt(o("-x")), p: opt(a()) })), cmd("up", f("-f"))) }), ["go", "up", "-x v0", "--help", "help", "--version", "-f", "--bad", "--"]],
  [or(cmd("help", opt(a())), cmd("go", k("g"))), ["help", "go", "--help", "--version", "version", "completion", "bash", "v0"]],
  [obj({ h: opt(o("--help")), r: opt(a()) }), ["--help v0", "--help", "v1", "--version", "--", "help", "completion tcsh"]],
  [obj({ v: opt(f("--version")), x: o("-x") }), ["--version", "-x v0", "--help", "--bad", "version", "help"]],
  [obj({ p: pass("greedy"), x: opt(o("-x")) }), ["-x v0", "--help", "--version", "go", "--"]],
  [obj({ p: pass("equalsOnly"), x: opt(o("-x")) }), ["-x v0", "--help", "--u=1", "--completion=bash", "--version"]],
  [obj({ p: pass("nextToken"), x: opt(o("-x")) }), ["-x v0", "--help", "v1", "--", "--completion bash", "help"]],
  [ac("red", "green"), ["red", "blue", "--help", "help", "version", "--", "--version", "completion zsh v1"]],
  [cmd("a", or(cmd("b", obj({ x: o("-x") })), cmd("d", a()))), ["a", "b", "d", "-x v0", "--help", "--version", "help", "v1", "--bad"]],
  [seq(opt(o("-x")), multi(cmd("go", opt(f("-f"))), 0, 1), multi(a())), ["-x v0", "go", "-f", "v1", "--help", "--", "--version"]],
  [cond(oc(["on"], "-k"), { on: obj({ x: o("-x") }) }, obj({ h: opt(f("--help")) })), ["-k on", "-x v0", "--help", "--version", "-k bad", "help"]],
  [or(obj({ x: o("-x"), h: f("--help") }), cmd("go", obj({ v: opt(f("--version")) }))), ["-x v0", "--help", "go", "--version", "help", "version"]],
  [merge(obj({ x: opt(o("-x")) }), or(obj({ y: o("-y") }), cmd("go", obj({ z: opt(f("-z")) })))), ["-x v0", "-y v1", "go", "-z", "--help", "--version", "help"]],
  [tup(a(), multi(o("--completion"), 1, 2)), ["v0", "--completion bash", "--completion=zsh", "--help", "completion", "--version"]],
  [k("done"), ["--help", "help", "version", "--version", "completion", "bash", "--", "v0"]],
  [obj({ n: dfl(oi(0, 9, "-n"), "D"), f: b("-f") }), ["-n 5", "-n bad", "-f", "-fn", "--help", "--version", "--completion nosuch", "--"]],
];
// names of each configuration replace the default ones in the chunks
function rename(t: string, m: Cfg, i: number): string {
  for (const [from, to] of [["--help", m.ho], ["help", m.hc], ["--version", m.vo], ["version", m.vc], ["--completion", m.co], ["completion", m.cc]] as [string, string[]][]) {
    if (t === from) return to.length ? to[i % to.length] : t;
    if (t.startsWith(from + "=")) return (to.length ? to[i % to.length] : from) + t.slice(from.length);
  }
  return t;
}
const entries: any[] = [];
for (const [gi, [g, chunks]] of grams.entries()) {
  for (const [ci, cf] of cfgs.entries()) {
    if (ci > 1 && (gi + ci) % (c.thorough ? 1 : 3) !== 0) continue;       // FULL and OPTS for all, a third of the rest in the quick tier
    const userNames = ci === 3;
    const ch = chunks.map((x, i) => x.split(" ").map((t) => (userNames ? rename(t, cf, i) : t)));
    let max = 0, tot = 1, lvl = 1;
    while (max < 4 && tot + lvl * ch.length <= cap) { lvl *= ch.length; tot += lvl; max++; }
    entries.push({ id: `g${gi}c${ci}`, g, c: cfgRecord(g, cf), cf, ch, pre: [], max: Math.max(max, 2) });
  }
}
const nSmall = entries.length;
// ---- random grammars and command lines
const r = new Rng(c.seed * 30011 + Number(c.id.slice(1)));
const nRandom = c.thorough ? 30000 : streams ? 1500 : 2500;
const prof = { ...profiles.base, inner: { ...profiles.base.inner, cmd: 16, multi: 6 }, leaf: { ...profiles.base.leaf, pass: 4 } };
const oneCommand = (g: any): boolean => {       // the command path is unambiguous
  const walk = (n: any): number => {
    if (!n || typeof n !== "object") return 0;
    switch (n.t) {
      case "cmd": return 1 + walk(n.c);
      case "or": case "lm": return Math.max(...n.cs.map(walk));
      case "cond": return Math.max(walk(n.d) ? 9 : 0, ...n.bcs.map(walk), walk(n.def));
      case "multi": return walk(n.c) ? 9 : 0;
      default: { const ks = [...(n.cs ?? []), ...(n.c ? [n.c] : [])].map(walk).filter((x) => x > 0); return ks.length > 1 ? 9 : ks[0] ?? 0; }
    }
  };
  return walk(g) < 9;
};
while (entries.length < nSmall + nRandom) {
  const gr = new Rng(r.int(2 ** 31));
  const g = new Gen(gr, prof).grammar();
  if (!oneCommand(g) || tryBuild(g, {}).out) continue;
  const cf = gr.pick(cfgs);
  const voc = [...cf.ho, ...cf.hc, ...cf.vo, ...cf.vc, ...cf.co, ...cf.cc];
  for (let j = 0; j < 5; j++) {
    let argv = new Argv(gr, prof).argv(g);
    for (let n = gr.range(0, 2); n > 0 && voc.length; n--) {
      const w = gr.pick(voc), at = gr.bool(0.35) ? 0 : gr.int(argv.length + 1);
      argv.splice(at, 0, ...(cf.co.includes(w) || cf.cc.includes(w) ? (gr.bool(0.7) ? [w, gr.pick(["bash", "zsh", "nope", "fish", "toString"])] : w.startsWith("-") ? [w + "=" + gr.pick(["bash", "x"])] : [w]) : [w]));
    }
    if (cf.ho.length && gr.bool(0.2)) argv.push(gr.pick(cf.ho));
    entries.push({ id: `r${entries.length}`, g, c: cfgRecord(g, cf), cf, ch: [], pre: argv, max: 0 });
  }
}
const m = await tlc(c.scratch, "RunnerMC", { ENTRIES: ndjson(path.join(c.scratch, "entries.ndjson"), entries.map(({ cf: _, ...e }) => e)) }, { workers: 8 });
c.states += m.states; c.transitions += m.transitions;
const built = new Map<any, { s: any; a: any }>();
const parsers = (g: any) => { let p = built.get(g); if (!p) built.set(g, p = { s: build(g, {}), a: build(g, { async: true, tick: async () => {} }) }); return p; };
const kinds: Record<string, number> = {};
const procs: any[] = [];
for (const row of m.rows) {
  const e = entries[row.e - 1];
  if (row.tag === "REJ") continue;
  const argv: string[] = [...e.pre, ...row.s.flatMap((i: number) => e.ch[i - 1])];
  const key = `${e.ch.length ? e.id : "random " + JSON.stringify(e.g) + " " + JSON.stringify(e.cf)} ${JSON.stringify(argv)}`;
  if (row.tag === "PRED") { c.violation(`${key} ${row.p}`, { grammar: e.g, config: e.cf, argv, predicate: row.p, spec: row.out }); continue; }
  const p = parsers(e.g);
  const compare = (mode: string, want: any, got: Obs) => {
    c.traces++;
    const okv = want.k === got.k && (want.k !== "value" || sameValue(want.v, got.v));
    if (!okv) c.violation(`${key} ${mode}`, { grammar: e.g, config: e.cf, argv, mode, want, got });
    else if (got.note) c.violation(`${key} ${mode} ${got.note}`, { grammar: e.g, config: e.cf, argv, mode, want, note: got.note });
  };
  kinds[row.out.k] = (kinds[row.out.k] ?? 0) + 1;
  { const log: [string, unknown][] = []; let got: Obs; try { got = judge(log, runParser(p.s, "prog", argv, coreOptions(e.cf, log))); } catch (x) { got = crash(x); } compare("sync", row.out, got); }
  { const log: [string, unknown][] = []; let got: Obs; try { const q: any = runParser(p.a, "prog", argv, coreOptions(e.cf, log)); got = judge(log, await q); } catch (x) { got = crash(x); } compare("async", row.aout ?? row.out, got); }
  if (row.out.k === "suggest" && e.ch.length) c.sample({ grammar: e.g, argv, outcome: row.out.k }, 2);
  if (row.out.k === "help" && argv.length > 2 && e.ch.length) c.sample({ grammar: e.g, argv, outcome: row.out.k }, 5);
  if (streams) await viaRun(e, argv, row, key);
  if (streams && e.ch.length && argv.length <= 3) procs.push({ e, argv, out: row.out });
}
/** @optique/run: exit code instead of callbacks */
async function viaRun(e: any, argv: string[], row: any, key: string) {
  const errorExitCode = r.pick([undefined, 2, 64, 0]);
  const aboveError = r.pick([undefined, "usage", "help", "none"]);
  class Exit { code: number; constructor(code: number) { this.code = code; } }
  const once = async (mode: string, want: any) => {
    const log: [string, unknown][] = [];
    const core = coreOptions(e.cf, []);
    const strip = (x: any) => { if (!x) return x; const { onShow: _, ...y } = x; return y; };
    const opts: any = {
      programName: "prog", args: argv, ...(core.help ? { help: strip(core.help) } : {}), ...(core.version ? { version: strip(core.version) } : {}), ...(core.completion ? { completion: strip(core.completion) } : {}),
      ...(errorExitCode != null ? { errorExitCode } : {}), ...(aboveError ? { aboveError } : {}), colors: r.bool(0.2), maxWidth: r.pick([undefined, 40, 80]),
      stdout: (s: string) => { log.push(["out", s]); }, stderr: (s: string) => { log.push(["err", s]); },
      onExit: (code: number) => { log.push(["exit", code]); throw new Exit(code); },
    };
    let value: any, exit: number | undefined, other: any;
    try {
      value = mode === "sync" ? (r.bool(0.5) ? run(parsers(e.g).s, opts) : runS(parsers(e.g).s, opts)) : await (r.bool(0.5) ? run(parsers(e.g).a, opts) as any : runA(parsers(e.g).a, opts));
    } catch (x) { if (x instanceof Exit) exit = x.code; else other = x; }
    c.traces++;
    const exits = log.filter(([n]) => n === "exit"), outs = log.filter(([n]) => n === "out").length, errs = log.filter(([n]) => n === "err").length;
    const bad = (why: string) => c.violation(`${key} run ${mode} ${why}`, { grammar: e.g, config: e.cf, argv, want, exit, outs, errs, error: String(other?.message ?? ""), errorExitCode, aboveError });
    if (other) return bad("threw");
    if (exits.length > 1) return bad("exited twice");
    switch (want.k) {
      case "value": if (exit != null || outs || errs || !sameValue(want.v, encode(value))) bad("value"); break;
      case "error": if (exit !== (errorExitCode ?? 1) || outs || !errs) bad("error status"); break;
      default: if (exit !== 0 || errs || (!outs && want.k !== "suggest")) bad(`${want.k} status`);
    }
  };
  await once("sync", row.out);
  await once("async", row.aout ?? row.out);
}
if (c.id === "C18") {
  // recorded finding: the terminator consumed by a step that then fails
  const log: [string, unknown][] = [];
  runParser(build(seq(or(f("--el"), pass("greedy")), o("-f")), {}), "prog", ["--", "--help"], coreOptions(OPTS, log));
  if (log.some(([n]) => n === "help")) c.violation("seq(or(flag, passThrough), option) -- --help", { log });
}
if (streams) {
  // real processes: exit status and the two streams
  const pick = new Rng(c.seed + 5).shuffle(procs);
  const chosen: any[] = []; const per: Record<string, number> = {};
  for (const q of pick) { const n = (per[q.out.k] = (per[q.out.k] ?? 0) + 1); if (n <= (c.thorough ? 60 : 9)) chosen.push(q); }
  const { bundle } = await import(path.join(process.env.VP_ROOT!, "harness/build.mjs"));
  const prog = path.join(c.scratch, "prog.mjs");
  await bundle(path.join(process.env.VP_ROOT!, "harness/lib/prog.ts"), prog);
  const one = (q: any, i: number) => new Promise<void>((done) => {
    const core = coreOptions(q.e.cf, []);
    const conf = { g: q.e.g, async: i % 2 === 1, help: core.help, version: core.version, completion: core.completion, errorExitCode: i % 3 === 0 ? 7 : undefined };
    const p = spawn("node", [prog, ...q.argv], { env: { ...process.env, VP_PROG: JSON.stringify(conf) }, cwd: c.scratch });
    let out = "", err = "";
    p.stdout.on("data", (d) => out += d); p.stderr.on("data", (d) => err += d);
    p.on("close", (code) => {
      c.traces++;
      const want = q.out.k, bad = (why: string) => c.violation(`process ${q.e.id} ${JSON.stringify(q.argv)} ${why}`, { argv: q.argv, want, code, out: out.slice(0, 300), err: err.slice(0, 300) });
      if (want === "value") { if (code !== 0 || err || out.trim() !== "VALUE " + JSON.stringify(q.out.v)) { let v: any; try { v = JSON.parse(out.trim().slice(6)); } catch { v = null; } if (code !== 0 || err || !v || !sameValue(v, q.out.v)) bad("value"); } }
      else if (want === "error") { if (code !== (conf.errorExitCode ?? 1) || out || !err) bad("error"); }
      else if (code !== 0 || err || (!out && want !== "suggest")) bad(want);
      done();
    });
  });
  let at = 0;
  await Promise.all(Array.from({ length: 8 }, async () => { while (at < chosen.length) { const i = at++; await one(chosen[i], i); } }));
  c.extra.processes = chosen.length;
}
c.extra = { ...c.extra, small_grammar_configurations: nSmall, random_runs: nRandom, outcome_kinds: kinds };
c.finish();
