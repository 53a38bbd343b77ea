// C29: every history of Sessions.tla is executed on one shared parser object.
import { AsyncLocalStorage } from "node:async_hooks";
import path from "node:path";
import * as C from "@optique/core";
import { Check } from "../lib/check.ts";
import { build } from "../lib/ast.ts";
import { Argv, Gen } from "../lib/gen.ts";
import { profiles } from "../lib/profiles.ts";
import { Rng } from "../lib/rng.ts";
import { type Outcome, runAsync, runSync, tryBuild } from "../lib/run.ts";
import { ndjson, tlc } from "../lib/tlc.ts";
import { sameOutcome } from "../lib/value.ts";
import { a, ac, b, cmd, cond, dfl, f, lm, merge, multi, ne, o, obj, oc, oi, opt, or, pass, seq, tup, concat, map } from "../lib/dsl.ts";

const c = new Check(process.argv[2]);
const V = (...xs: string[]) => xs.map((x) => x === "" ? [] : x.split(" "));
const cat = [
  { g: obj({ x: o("-x"), y: opt(o("-y")), r: multi(a()) }), argvs: V("-x v0 v1", "v2 -x v3 -y v4", "-y v5", "-x v6 -- -y") },
  { g: or(obj({ x: o("-x"), s: opt(o("-s")) }), obj({ y: o("-y"), s: opt(o("-s")) }), cmd("go", obj({ r: multi(a()) }))), argvs: V("-s v0 -x v1", "-y v2 -s v3", "go v4 v5", "-x v6 -y v7") },
  { g: multi(lm(tup(f("-f"), a()), a(), o("-x"))), argvs: V("-f v0 v1", "v2 -x v3", "", "-x v4 -x") },
  { g: cond(oc(["on", "off"], "-k"), { on: obj({ x: opt(o("-x")) }), off: multi(o("-y")) }, obj({ r: multi(a()) })), argvs: V("-k on -x v0", "-k off -y v1 -y v2", "v3 v4", "-k on -y v5") },
  { g: merge(obj({ x: dfl(o("-x"), "D"), r: multi(a(), 0, 2) }), obj({ m: multi(oi(0, 9, "-m")) })), argvs: V("-m 1 v0 -m 2", "-x v1", "-m 99", "v2 v3 -x v4") },
  { g: seq(opt(o("-x")), multi(a()), opt(cmd("go", obj({ y: dfl(o("-y"), "D") }), "g"))), argvs: V("-x v0 v1 go -y v2", "v3 g", "go", "v4 -x v5") },
  { g: concat(tup(opt(o("-x")), multi(ac("red", "green"))), tup(b("-b"), opt(o("-y")))), argvs: V("red -y v0 green", "-b -x v1", "blue", "-y v2 red -b") },
  { g: obj({ p: ne(obj({ x: opt(o("-x")), f: opt(f("-f")) })), q: map(multi(o("-q"), 1)), z: pass("nextToken") }), argvs: V("-x v0 -q v1", "-q v2", "-f -q v3 --zz v4", "-x v5 -q v6 -q v7") },
];
// a few random grammars besides
const r = new Rng(c.seed * 31337 + 29);
while (cat.length < (c.thorough ? 60 : 14)) {
  const gr = new Rng(r.int(2 ** 31));
  const g = new Gen(gr, profiles.base).grammar();
  if (/"t":"cond","d":\{"t":"(dflt|const)/.test(JSON.stringify(g)) || tryBuild(g, {}).out || tryBuild(g, { async: true }).out) continue;
  const p = tryBuild(g, {}).p;
  const argvs: string[][] = [];
  for (let k = 0; k < 60 && argvs.length < 4; k++) {
    const argv = new Argv(gr, profiles.base).argv(g);
    if (argvs.some((x) => x.join() === argv.join())) continue;
    if (argvs.length < 2 ? runSync(p, argv).k === "ok" : true) argvs.push(argv);
  }
  if (argvs.length === 4) cat.push({ g, argvs });
}
const kinds = ["sync", "suggest", "doc", "early"];
const m = await tlc(c.scratch, "Sessions", {
  ENTRIES: ndjson(path.join(c.scratch, "e.ndjson"), cat),
  CFG: ndjson(path.join(c.scratch, "c.ndjson"), [{ kinds, ticks: c.thorough ? 2 : 1 }]),
}, { workers: 8 });
c.states = m.states; c.transitions = m.transitions;

const als = new AsyncLocalStorage<{ gates: (() => void)[]; open: boolean }>();
const tick = () => {
  const s = als.getStore();
  if (s == null || s.open) return Promise.resolve();
  return new Promise<void>((res) => { s.gates.push(res); });
};
const settle = async () => { for (let i = 0; i < 12; i++) await null; };
// one shared object per grammar for the whole check, in both modes
const sh = cat.map((e) => ({ a: build(e.g, { async: true, tick }), s: build(e.g, {}) }));
const show = (x: unknown) => JSON.stringify(x, (_k, v) => v instanceof Set ? [...v] : typeof v === "function" ? "fn" : v);
const third = async (e: number, kind: string, argv: string[], p: { a: any; s: any }): Promise<unknown> => {
  switch (kind) {
    case "suggest": return show([C.suggest(p.s, [...argv, ""] as any), await C.suggestAsync(p.a, [...argv, "-"] as any)]);
    case "doc": return show([C.getDocPage(p.s, argv), await C.getDocPage(p.a, argv), C.formatUsage("p", p.s.usage)]);
    case "early": { try { return show(C.parse(p.s, [...argv.slice(0, -1), "--undeclared", "\0"])); } catch (x: any) { return "throws " + x?.message; } }
  }
};
const fresh = new Map<string, unknown>();
for (const row of m.rows) {
  const e = row.e - 1, E = cat[e];
  const argv = (i: number) => E.argvs[row.a[i] - 1];
  const ses = [0, 1].map(() => ({ gates: [] as (() => void)[], open: false }));
  const res: (Promise<Outcome> | undefined)[] = [];
  let got3: unknown, want3: unknown;
  for (const ev of row.h as string[]) {
    const i = Number(ev[1]) - 1;
    if (ev === "S3") {
      if (row.kind === "sync") { got3 = runSync(sh[e].s, argv(2)); want3 = row.out[2]; }
      else {
        const k = `${e}/${row.kind}/${row.a[2]}`;
        if (!fresh.has(k)) fresh.set(k, await third(e, row.kind, argv(2), { a: build(E.g, { async: true, tick: async () => {} }), s: build(E.g, {}) }));
        want3 = fresh.get(k);
        got3 = await third(e, row.kind, argv(2), sh[e]);
      }
    } else if (ev[0] === "S") { res[i] = als.run(ses[i], () => runAsync(sh[e].a, argv(i))); await settle(); }
    else { ses[i].gates.shift()?.(); await settle(); }
  }
  // drain: the second session first
  for (const i of [1, 0]) { ses[i].open = true; while (ses[i].gates.length) { ses[i].gates.shift()!(); await settle(); } }
  const got = [await res[0]!, await res[1]!];
  c.traces++;
  const key = () => `${JSON.stringify(E.g)} ${JSON.stringify([0, 1, 2].map(argv))} ${row.kind} ${row.h.join(" ")}`;
  [0, 1].forEach((i) => {
    if (!sameOutcome(row.out[i], got[i])) c.violation(key() + " session " + (i + 1), { grammar: E.g, argv: [0, 1, 2].map(argv), history: row.h, want: row.out[i], got: got[i] });
  });
  const ok3 = row.kind === "sync" ? sameOutcome(want3, got3) : want3 === got3;
  if (!ok3) c.violation(key() + " session 3", { grammar: E.g, argv: [0, 1, 2].map(argv), kind: row.kind, history: row.h, want: want3, got: got3 });
  if (row.h[1] !== "T1") c.sample({ grammar: E.g, argvs: [argv(0), argv(1), argv(2)], kind: row.kind, history: row.h, outcomes: row.out }, 3);
}
c.extra = { grammars: cat.length, histories: m.rows.length };
c.finish();
