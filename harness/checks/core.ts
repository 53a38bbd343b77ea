// Properties of the parser machine: TLC explores small command lines for the
// catalogue grammars and the real parsers replay every one of them; random
// grammars are validated as traces of the spec.
import path from "node:path";
import { catalog } from "../lib/catalog.ts";
import { Check } from "../lib/check.ts";
import { Argv, Gen } from "../lib/gen.ts";
import { build } from "../lib/ast.ts";
import { probes } from "../lib/probes.ts";
import { profiles } from "../lib/profiles.ts";
import { Rng } from "../lib/rng.ts";
import { type Outcome, runAsync, runSync, tryBuild } from "../lib/run.ts";
import { ndjson, tlc } from "../lib/tlc.ts";
import { sameOutcome } from "../lib/value.ts";

const c = new Check(process.argv[2]);
const cap = Number(process.env.VP_CAP ?? (c.thorough ? 25000 : 620));
const nRandom = Number(process.env.VP_RANDOM ?? (c.thorough ? 60000 : 6000));

// ---- exhaustive part
// every entry is explored twice: with its own chunks (and the predicates that
// rest on their meaning) and with the bare tokens, the terminator among them
const rawCap = Number(process.env.VP_RAWCAP ?? (c.thorough ? 8000 : 600));
const raw = catalog[c.id].map((e) => {
  const t = [...new Set(["--", ...e.ch.flatMap((x) => x.t)])].map((x) => ({ t: [x], v: [] as string[], k: "", g: "" }));
  // long vocabularies: keep names, one token of the others for each value
  const drop = (x: string) => /^v[2-9]$/.test(x);
  return { ...e, id: e.id + "r", ch: t.length > 8 ? t.filter((x) => !drop(x.t[0])) : t, max: 4, pr: [], cap: rawCap };
});
const entries = [...catalog[c.id].map((e) => ({ ...e, cap })), ...raw].map(({ cap, ...e }) => {
  let max = 0, tot = 1, lvl = 1;
  while (max < e.max + (c.thorough ? 2 : 0) && tot + lvl * e.ch.length <= cap) { lvl *= e.ch.length; tot += lvl; max++; }
  return { ...e, max: Math.max(max, 1), dual: /"t":"(or|lm|cond)"/.test(JSON.stringify(e.g)) };
});
const mc = tlc(c.scratch, "OptiqueMC", { ENTRIES: ndjson(path.join(c.scratch, "entries.ndjson"), entries) }, { workers: 5 });

// ---- random part: record traces from the implementation
const prof = profiles[c.id] ?? profiles.base;
const r = new Rng(c.seed * 7919 + Number(c.id.slice(1)));
const cases: any[] = [];
while (cases.length < nRandom) {
  const gr = new Rng(r.int(2 ** 31));
  const g = new Gen(gr, prof).grammar();
  const s = tryBuild(g, {}), a = tryBuild(g, { async: true, tick: async () => {} });
  for (let k = 0; k < 6; k++) {
    const argv = new Argv(gr, prof).argv(g);
    const obs: any[] = [{ m: "sync", r: s.out ?? runSync(s.p, argv) }];
    obs.push({ m: "async", r: a.out ?? await runAsync(a.p, argv) });
    cases.push({ id: cases.length, g, argv, obs });
    if (s.out) break;
  }
}
const tv = tlc(c.scratch, "OptiqueTrace", { CASES: ndjson(path.join(c.scratch, "cases.ndjson"), cases) }, { workers: 4 });

// ---- replay the explored command lines
const m = await mc;
c.states += m.states; c.transitions += m.transitions;
const built = entries.map((e) => ({ s: tryBuild(e.g, {}), a: tryBuild(e.g, { async: true, tick: async () => {} }) }));
const fluent = c.id === "C12" ? entries.map((e) => [build(e.g, { fluent: true }), build(e.g, { labels: true })]) : [];
for (const row of m.rows) {
  const e = entries[row.e - 1];
  const argv: string[] = (row.s as number[]).flatMap((i) => e.ch[i - 1].t);
  const key = `${e.id} ${JSON.stringify(argv)}`;
  if (row.tag === "PRED") { c.violation(`${key} ${row.p}`, { entry: e.id, grammar: e.g, argv, predicate: row.p, spec: row.out }); continue; }
  const b = built[row.e - 1];
  const cmp = (mode: string, want: Outcome, got: Outcome) => {
    if (!sameOutcome(want, got)) c.violation(`${key} ${mode}`, { entry: e.id, grammar: e.g, argv, mode, want, got });
  };
  cmp("sync", row.out, b.s.out ?? runSync(b.s.p, argv));
  cmp("async", row.aout ?? row.out, b.a.out ?? await runAsync(b.a.p, argv));
  for (const p of fluent[row.e - 1] ?? []) cmp("variant", row.out, runSync(p, argv));
  c.traces++;
  if (row.s.length === 3 && row.out.k === "ok") c.sample({ entry: e.id, argv, outcome: row.out }, 3);
}
// ---- verdict on the recorded traces
const t = await tv;
c.states += t.states; c.transitions += t.transitions; c.traces += cases.length;
for (const row of t.rows) {
  const k = cases[row.idx - 1];
  c.violation(`random ${JSON.stringify(k.g)} ${JSON.stringify(k.argv)} ${row.mode}`, { grammar: k.g, argv: k.argv, mode: row.mode, want: row.want, got: row.got });
}
for (const k of cases) if (k.obs[0].r.k === "ok" && k.argv.length > 2) c.sample({ grammar: k.g, argv: k.argv, outcome: k.obs[0].r }, 5);
for (const k of probes[c.id] ?? []) {
  const got = runSync(build(k.g), k.argv);
  if (!k.want(got)) c.violation(k.key, { grammar: k.g, argv: k.argv, got });
}
c.extra = {
  grammars_explored_exhaustively: entries.length,
  command_lines_replayed: m.rows.filter((x) => x.tag === "OUT").length,
  random_traces: cases.length,
  random_traces_accepted_by_parser: cases.filter((k) => k.obs[0].r.k === "ok").length,
  chunk_bounds: entries.map((e) => `${e.id}:${e.max}x${e.ch.length}`).join(" "),
};
c.finish();
