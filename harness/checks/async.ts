// C22: every explored command line is run synchronously, with all value
// parsers asynchronous, and with a random subset of them asynchronous, under
// the settlement schedules TLC enumerates.
import path from "node:path";
import { build } from "../lib/ast.ts";
import { catalog } from "../lib/catalog.ts";
import { Check } from "../lib/check.ts";
import { Argv, Gen } from "../lib/gen.ts";
import { profiles } from "../lib/profiles.ts";
import { asyncProbes } from "../lib/probes.ts";
import { Rng } from "../lib/rng.ts";
import { Scheduler } from "../lib/sched.ts";
import { type Outcome, runAsync, runSync, tryBuild } from "../lib/run.ts";
import { ndjson, tlc } from "../lib/tlc.ts";
import { sameOutcome } from "../lib/value.ts";

const c = new Check(process.argv[2]);
const cap = c.thorough ? 1500 : 75;
const entries = Object.values(catalog).flat().map((e) => {
  let max = 0, tot = 1, lvl = 1;
  while (max < e.max && tot + lvl * e.ch.length <= cap) { lvl *= e.ch.length; tot += lvl; max++; }
  return { ...e, pr: [], max: Math.max(max, 2), dual: true };
});
const mc = tlc(c.scratch, "OptiqueMC", { ENTRIES: ndjson(path.join(c.scratch, "entries.ndjson"), entries) }, { workers: 5 });
const sm = await tlc(c.scratch, "Schedule", { CFG: ndjson(path.join(c.scratch, "sched.ndjson"), [{ spine: 2, conc: c.thorough ? 5 : 3, len: c.thorough ? 7 : 5 }]) }, { workers: 2 });
c.states += sm.states; c.transitions += sm.transitions;
const schedules: string[][][] = sm.rows.map((x) => x.s);
const r = new Rng(c.seed * 65537 + 22);

/** the grammar with a random subset of its value parsers asynchronous */
function mixed(g: any) {
  const s = new Scheduler();
  const t = tryBuild(g, { async: true, pick: () => r.bool(0.6), tick: () => s.tick() });
  return { s, t };
}
async function observe(key: string, g: any, argv: string[], sync: Outcome, want: Outcome) {
  const m = mixed(g), sched = r.pick(schedules);
  m.s.start(sched);
  let got: Outcome;
  if (m.t.out) got = m.t.out;
  else got = await runAsync(m.t.p, argv);
  m.s.stop();
  c.traces++; c.transitions += m.s.steps;
  // a mixed grammar behaves like the synchronous one, or, where the
  // specification says the two forms differ (a recorded finding), like either
  if (!sameOutcome(sync, got) && !sameOutcome(want, got)) c.violation(`${key} mixed`, { grammar: g, argv, sync, async: want, got, schedule: sched });
  return m.s.steps;
}

const prof = { ...profiles.base, leaf: { ...profiles.base.leaf, opt: 40, arg: 25, flag: 6, bopt: 6 } };
const cases: any[] = [];
const nRandom = c.thorough ? 40000 : 5000;
while (cases.length < nRandom) {
  const gr = new Rng(r.int(2 ** 31));
  const g = new Gen(gr, prof).grammar();
  const s = tryBuild(g, {});
  const sch = new Scheduler();
  const a = tryBuild(g, { async: true, tick: () => sch.tick() });
  for (let k = 0; k < 5; k++) {
    const argv = new Argv(gr, prof).argv(g);
    sch.start(r.pick(schedules));
    cases.push({ id: cases.length, g, argv, obs: [{ m: "sync", r: s.out ?? runSync(s.p, argv) }, { m: "async", r: a.out ?? await runAsync(a.p, argv) }] });
    sch.stop();
    if (s.out) break;
  }
}
const tv = tlc(c.scratch, "OptiqueTrace", { CASES: ndjson(path.join(c.scratch, "cases.ndjson"), cases) }, { workers: 4 });
const m = await mc;
c.states += m.states; c.transitions += m.transitions;
let steps = 0, diverge = 0;
const built = entries.map((e) => { const s = new Scheduler(); return { s, p: build(e.g, {}), a: build(e.g, { async: true, tick: () => s.tick() }) }; });
for (const row of m.rows) {
  const e = entries[row.e - 1], b = built[row.e - 1];
  const argv: string[] = row.s.flatMap((i: number) => e.ch[i - 1].t);
  const key = `${e.id} ${JSON.stringify(argv)}`;
  const sync = runSync(b.p, argv), want: Outcome = row.aout ?? row.out;
  if (!sameOutcome(row.out, sync)) c.violation(`${key} sync`, { grammar: e.g, argv, want: row.out, got: sync });
  if (!sameOutcome(row.out, want)) diverge++;
  b.s.start(r.pick(schedules));
  const as = await runAsync(b.a, argv);
  b.s.stop();
  c.traces++;
  if (!sameOutcome(want, as)) c.violation(`${key} async`, { grammar: e.g, argv, want, got: as });
  steps += await observe(key, e.g, argv, sync, want);
  if (argv.length > 2 && sync.k === "ok") c.sample({ grammar: e.g, argv, outcome: sync }, 3);
}
const t = await tv;
c.states += t.states; c.transitions += t.transitions; c.traces += cases.length;
const wrong = new Map<number, any[]>();
for (const row of t.rows) {
  const k = cases[row.idx - 1];
  wrong.set(row.idx - 1, [...(wrong.get(row.idx - 1) ?? []), row]);
  c.violation(`random ${JSON.stringify(k.g)} ${JSON.stringify(k.argv)} ${row.mode}`, { grammar: k.g, argv: k.argv, mode: row.mode, want: row.want, got: row.got });
}
for (const [i, k] of cases.entries()) {
  if (wrong.has(i) || k.obs[0].r.k === "throw") continue;
  if (!sameOutcome(k.obs[0].r, k.obs[1].r)) diverge++;
  steps += await observe(`random ${JSON.stringify(k.g)} ${JSON.stringify(k.argv)}`, k.g, k.argv, k.obs[0].r, k.obs[1].r);
}
for (const k of asyncProbes) {
  const s = runSync(build(k.g), k.argv), a = await runAsync(build(k.g, { async: true, tick: async () => {} }), k.argv);
  c.traces++;
  if (!sameOutcome(s, a)) c.violation(k.key, { grammar: k.g, argv: k.argv, sync: s, async: a });
}
c.extra = { schedules: schedules.length, gated_steps: steps, command_lines_explored: m.rows.length, random_traces: cases.length, recorded_divergences_met: diverge };
c.finish();
