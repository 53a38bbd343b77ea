// C28: TLC enumerates grammar texts; every one is constructed with the real
// combinators and must be accepted or rejected as the spec says.  Random
// larger grammars with repeated names are validated the same way.
import path from "node:path";
import * as C from "@optique/core";
import { Check } from "../lib/check.ts";
import { Gen } from "../lib/gen.ts";
import { profiles } from "../lib/profiles.ts";
import { Rng } from "../lib/rng.ts";
import { runAsync, runSync, tryBuild } from "../lib/run.ts";
import { ndjson, tlc } from "../lib/tlc.ts";
import { a, b, cmd, f, nf, o } from "../lib/dsl.ts";

const c = new Check(process.argv[2]);
const hid = (n: any, h = "all") => ({ ...n, hid: h });
const leaves = [f("-a"), b("-b", "--bb"), o("--bb"), hid(o("-a")), nf(["-b"], ["--no"]), a(), cmd("x", f("-a")), hid(cmd("y", f("-c"), "x"))];
const base = { leaves, wraps: ["optional", "multi0", "group", "nonempty", "map", "dflt", "cmdx", "cmdz", "objhid", "multi1"], combs: ["obj", "tup", "merge", "concat", "or", "lm", "seq", "cond", "condd"] };
const runs = c.thorough
  ? [{ ...base, maxLeaves: 3, maxWraps: 1, maxCombs: 2 }, { ...base, maxLeaves: 2, maxWraps: 3, maxCombs: 1 }]
  : [{ ...base, leaves: leaves.slice(0, 7), wraps: [], maxLeaves: 3, maxWraps: 0, maxCombs: 2 }, { ...base, maxLeaves: 2, maxWraps: 1, maxCombs: 1 },
    { ...base, leaves: [f("-a"), hid(f("-a")), a(), cmd("x", a())], wraps: ["optional", "multi0", "cmdz", "dflt", "objhid"], maxLeaves: 2, maxWraps: 2, maxCombs: 1 }];
let n = 0, rej = 0;
for (const [i, cfg] of runs.entries()) {
  const m = await tlc(c.scratch, "Construct", { CFG: ndjson(path.join(c.scratch, `cfg${i}.ndjson`), [cfg]) }, { workers: 8 });
  c.states += m.states; c.transitions += m.transitions;
  for (const row of m.rows) {
    if (row.tag === "PRED") { c.violation(`${row.p} ${JSON.stringify(row.g)}`, row); continue; }
    const t = tryBuild(row.g, {});
    const got = t.out ? t.out.k : "ok";
    const want = row.r ? "throw" : "ok";
    n++; if (row.r) rej++;
    c.traces++;
    if (got !== want) c.violation(`build ${JSON.stringify(row.g)}`, { grammar: row.g, want, got, detail: t.out });
    if (row.r && row.g.t === "seq") c.sample({ grammar: row.g, verdict: want }, 4);
  }
}
// random larger grammars
const r = new Rng(c.seed * 104729 + 28);
const cases: any[] = [];
const nRandom = c.thorough ? 40000 : 6000;
while (cases.length < nRandom) {
  const gr = new Rng(r.int(2 ** 31));
  const g = new Gen(gr, { ...profiles.base, dupNames: gr.pick([0, 0.1, 0.3]), hid: 0.2, inner: { ...profiles.base.inner, seq: 9, cmd: 10 } }).grammar();
  const s = tryBuild(g, {}), as = tryBuild(g, { async: true });
  cases.push({ id: cases.length, g, argv: [], obs: [{ m: "sync", r: s.out ?? runSync(s.p, []) }, ...(as.out ? [{ m: "async", r: as.out }] : [])] });
  if (!s.out !== !as.out) c.violation(`async construction ${JSON.stringify(g)}`, { grammar: g, sync: s.out, async: as.out });
}
const tv = await tlc(c.scratch, "OptiqueTrace", { CASES: ndjson(path.join(c.scratch, "cases.ndjson"), cases) }, { workers: 8 });
c.states += tv.states; c.transitions += tv.transitions; c.traces += cases.length;
for (const row of tv.rows) {
  if ((row.want.k === "throw") === (row.got.k === "throw")) continue;   // the outcome of [] is C33's matter
  c.violation(`random ${JSON.stringify(cases[row.idx - 1].g)}`, { grammar: cases[row.idx - 1].g, want: row.want, got: row.got });
}
// malformed declarations are rejected with a TypeError, well-formed ones are not
const bad: [string, () => unknown][] = [
  ["option without names", () => (C.option as any)()], ["empty option name", () => C.option("" as any)], ["option name without prefix", () => C.option("x" as any)],
  ["option name with a space", () => C.option("--a b" as any)], ["option name --", () => C.option("--" as any)], ["flag name without prefix", () => C.flag("x" as any)],
  ["negatable flag with a shared name", () => C.negatableFlag({ positive: "--x", negative: "--x" })],
  ["negatable flag with a repeated name", () => C.negatableFlag({ positive: ["--x", "--x"], negative: "--y" } as any)],
  ["command alias equal to its name", () => C.command("x", C.constant(1), { aliases: ["x"] })],
  ["command aliases repeated", () => C.command("x", C.constant(1), { aliases: ["y", "y"] })],
  ["empty command name", () => C.command("", C.constant(1))],
  ["or of two commands sharing an alias", () => C.or(C.command("x", C.constant(1), { aliases: ["k"] }), C.command("y", C.constant(1), { aliases: ["k"] }))],
];
for (const [what, fn] of bad) {
  let threw: any; try { fn(); } catch (e) { threw = e; }
  c.traces++;
  if (!(threw instanceof Error)) c.violation(`accepted: ${what}`, { what });
}
c.extra = { texts_constructed: n, rejected_by_spec: rej, random_grammars: cases.length, random_rejected: cases.filter((x) => x.obs[0].r.k === "throw").length };
c.finish();
