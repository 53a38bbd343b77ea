// C23: deferred values.  Behaviours of Deferred.tla are replayed on
// deferredValue() in several enclosing grammars.
import { writeFileSync } from "node:fs";
import path from "node:path";
import * as C from "@optique/core";
import { runWith } from "@optique/core/facade";
import { bindEnv, createEnvContext } from "@optique/env";
import { bindConfig, createConfigContext } from "@optique/config";
import { Check } from "../lib/check.ts";
import { Rng } from "../lib/rng.ts";
import { tlc } from "../lib/tlc.ts";

const c = new Check("C23");
const r = new Rng(c.seed * 5081 + 23);
const m = await tlc(c.scratch, "Deferred", { DEPTH: c.thorough ? "6" : "5" }, { workers: 8 });
c.states = m.states; c.transitions = m.transitions;

const asyncVp = (p: any) => ({ ...p, mode: "async", async parse(s: string) { await null; return p.parse(s); }, async *suggest() {} });
const schema: any = { "~standard": { version: 1, vendor: "vp", validate: (x: unknown) => ({ value: x }) } };
function grammar(inner: string, src: string, memo: boolean, fallback: (x: any) => any) {
  const vp = C.integer({ min: 1, max: 9 });
  const ctxs: any[] = [], env: Record<string, string> = {};
  const env1 = createEnvContext({ source: (k: string) => env[k] });
  if (src === "given") env.V = "7"; if (src === "bad") env.V = "x";
  const cfg = createConfigContext({ schema });
  const file = path.join(c.scratch, "cfg.json");
  writeFileSync(file, JSON.stringify(src === "given" ? { v: 7 } : src === "bad" ? { v: 77 } : {}));
  let p: any;
  switch (inner) {
    case "option": p = C.option("--v", vp); break;
    case "argument": p = C.argument(vp); break;
    case "flag": p = C.flag("--v"); break;
    case "map": p = C.map(C.option("--v", vp), (x: number) => ({ x })); break;
    case "async": p = C.option("--v", asyncVp(vp)); break;
    case "env": p = bindEnv(C.option("--v", vp), { context: env1, key: "V", parser: C.integer() }); break;
    case "envmap": p = C.map(bindEnv(C.option("--v", vp), { context: env1, key: "V", parser: C.integer() }), (x: number) => ({ x })); break;
    case "envdefault": p = bindEnv(C.option("--v", vp), { context: env1, key: "V", parser: C.integer(), default: 5 }); break;
    case "config": p = bindConfig(C.option("--v", vp), { context: cfg, key: "v" }); break;
    case "configdefault": p = bindConfig(C.option("--v", vp), { context: cfg, key: "v", default: 5 }); break;
  }
  if (inner.startsWith("env")) ctxs.push(env1); if (inner.startsWith("config")) ctxs.push(cfg);
  let d: any = r.bool(0.5) ? C.deferredValue(p, fallback, memo ? { memoize: true } : r.pick([undefined, {}, { memoize: false }])) : null;
  d ??= typeof p.deferredValue === "function" ? p.deferredValue(fallback, memo ? { memoize: true } : undefined) : C.deferredValue(p, fallback, memo ? { memoize: true } : undefined);
  const other = C.flag("--other", {}), pre: string[] = [];
  let g: any, pick = (v: any) => v.v;
  switch (r.pick(["obj", "obj", "nested", "tup", "cmd", "merge", "group", "or", "concat"])) {
    case "nested": g = C.object({ o: C.object({ v: d }), k: C.optional(other) }); pick = (v) => v.o.v; break;
    case "tup": g = C.tuple([C.optional(other), d]); pick = (v) => v[1]; break;
    case "cmd": g = C.command("go", C.object({ v: d })); pre.push("go"); break;
    case "merge": g = C.merge(C.object({ v: d }), C.object({ k: C.optional(other) })); break;
    case "group": g = C.object({ v: C.group("G", d) }); break;
    case "or": g = C.or(C.command("go", C.object({ v: d })), C.command("no", C.object({}))); pre.push("go"); break;
    case "concat": g = C.concat(C.tuple([d]), C.tuple([C.optional(other)])); pick = (v) => v[0]; break;
    default: g = C.object({ v: d, k: C.optional(other) });
  }
  const argv = (cli: string) => [...pre, ...(cli === "absent" ? [] : inner === "argument" ? [cli === "given" ? "3" : "x"] : inner === "flag" ? ["--v"] : r.bool(0.5) ? ["--v", cli === "given" ? "3" : "x"] : ["--v=" + (cli === "given" ? "3" : "77")])];
  const ask = async (cli: string): Promise<any> => {
    const FAIL = {};
    const opts: any = { args: argv(cli), onError: () => FAIL, stderr() {}, stdout() {}, contextOptions: { getConfigPath: () => file } };
    const sync = g.mode === "sync" && !ctxs.length && r.bool(0.5);
    if (!ctxs.length && r.bool(0.5)) { const res: any = sync ? C.parse(g, opts.args) : await C.parseAsync(g, opts.args); return res.success ? { v: pick(res.value) } : null; }
    const v = await runWith(g, "prog", ctxs, opts);
    return v === FAIL ? null : { v: pick(v) };
  };
  return { ask };
}
const tick = () => new Promise((ok) => setImmediate(ok));
for (const row of m.rows) {
  const made: any[] = [];        // runs started: { args, resolve, reject, value, error }
  let how = "value";
  const fallback = (...args: any[]) => {
    const k: any = { args, value: r.pick([undefined, null, 0, "s", { n: made.length }, [made.length]]), error: r.pick([new Error("e"), undefined, "e", null]) };
    made.push(k);
    if (how === "value") return k.value;
    if (how === "throw") throw k.error;
    const pr = new Promise((res, rej) => { k.resolve = () => res(k.value); k.reject = () => rej(k.error); });
    return r.bool(0.7) ? pr : { then: (a: any, b: any) => pr.then(a, b) };
  };
  const errs: string[] = [];
  try {
    const inner = row.branch === "fallback" && row.inner === "option" ? r.pick(["option", "option", "argument", "flag", "map", "async", "env", "config", "envmap"]) : row.inner;
    const { ask } = grammar(inner, row.src, row.memo, fallback);
    c.traces++;
    const a = await ask(row.cli);
    if (row.branch === "failure") { if (a !== null) errs.push(`an invalid value was accepted: ${String(a.v)}`); }
    else if (a === null) errs.push("parse failed");
    else if (row.branch !== "fallback") {
      const n = row.branch === "cli" ? 3 : row.branch === "source" ? 7 : 5;
      const want = inner === "flag" ? true : inner === "map" || inner === "envmap" ? JSON.stringify({ x: n }) : n;
      if (!C.isDeferredValue(a.v) || a.v.source !== "specified") errs.push(`source is ${a.v?.source}`);
      else for (let i = 0; i < 3; i++) { let v = a.v(i); if (r.bool(0.5)) v = await v; v = await v; if ((typeof v === "object" ? JSON.stringify(v) : v) !== want) errs.push(`value ${JSON.stringify(v)}`); }
      if (made.length) errs.push("the fallback ran");
    } else {
      const b = await ask(row.cli);
      const res: any[] = [null, a.v, b.v];
      if (made.length) errs.push("the fallback ran before it was asked for");
      if (!C.isDeferredValue(a.v) || a.v.source !== "fallback" || !C.isDeferredValue(b?.v)) errs.push("source");
      const open: any[] = [];    // promises to be judged when their run settles
      let n = 0, settled: any = null;
      for (let k = 0; k < row.hist.length && !errs.length; k++) {
        const h = row.hist[k];
        if (h.a === "settle") {
          const run = made[h.run - 1]; settled = open.find((o) => o.run === h.run);
          h.how === "ok" ? run.resolve() : run.reject(); run.end = h.how;
          // the next call may come from a continuation of the settled one
          if (settled && r.bool(0.5)) await settled.p.then(() => {}, () => {}); else await tick();
          continue;
        }
        how = h.how === "shared" ? r.pick(["value", "throw", "later"]) : h.how;
        const fresh = h.how !== "shared", arg = { call: k };
        let v: any, thrown: any, threw = false;
        try { v = res[h.x](arg); } catch (e) { threw = true; thrown = e; }
        if (fresh) n++;
        if (made.length !== n) { errs.push(`call ${k}: ${made.length} runs instead of ${n}`); break; }
        const run = made[h.run - 1];
        if (fresh && run.args[0] !== arg) errs.push(`call ${k}: context`);
        if (h.how === "throw") { if (!threw || !Object.is(thrown, run.error)) errs.push(`call ${k}: error lost`); continue; }
        if (threw) { errs.push(`call ${k} threw`); continue; }
        if (h.how === "later") run.how = "later";
        if (run.how === "later") {
          if (v == null && run.end !== "ok" || (!run.end && typeof v?.then !== "function")) errs.push(`call ${k}: no promise`);
          const o: any = { run: h.run, p: Promise.resolve(v) }; o.p.then((x: any) => { o.got = ["ok", x]; }, (e: any) => { o.got = ["fail", e]; });
          open.push(o); if (run.end) await tick();
        } else if (!Object.is(v, run.value)) errs.push(`call ${k}: value of another run`);
      }
      await tick(); await tick();
      for (const o of open) {
        const run = made[o.run - 1];
        if (!run.end) { if (o.got) errs.push("settled too early"); continue; }
        if (!o.got || o.got[0] !== run.end || !Object.is(o.got[1], run.end === "ok" ? run.value : run.error)) errs.push(`run ${o.run} ended ${run.end}, a call saw ${JSON.stringify(o.got)}`);
      }
    }
    if (errs.length) c.violation(`${inner} ${row.cli} ${row.src} memo=${row.memo} ${JSON.stringify(row.hist)}`, { what: errs[0], errs, inner, row });
    else c.sample({ inner, cli: row.cli, src: row.src, memo: row.memo, branch: row.branch, hist: row.hist }, 5);
  } catch (e: any) { c.violation(`crash ${JSON.stringify(row)}`, { what: "crash", row, error: String(e?.stack ?? e) }); }
}
c.finish();
