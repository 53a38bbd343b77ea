// What every check does: counting, known findings, evidence, verdict.
import { mkdirSync, readFileSync, writeFileSync, existsSync } from "node:fs";
import path from "node:path";

const ROOT = process.env.VP_ROOT ?? "/verif";
export interface Known { property: string; key: string; what: string }

export class Check {
  id: string; tier: "quick" | "thorough"; seed: number; scratch: string;
  level = "model_checking";
  states = 0; transitions = 0; traces = 0;
  evaluations = 0; nontrivial = new Set<string>();
  samples: unknown[] = []; extra: Record<string, unknown> = {};
  assumptions: string[] = [];
  bad: { key: string; detail: unknown }[] = []; badKeys = new Set<string>();
  known: Known[]; hitKnown = new Set<string>();
  t0 = Date.now();
  constructor(id: string) {
    this.id = id;
    this.tier = process.env.VERIF_TIER === "thorough" ? "thorough" : "quick";
    this.seed = Number(process.env.VERIF_SEED ?? "1") || 1;
    this.scratch = process.env.VP_SCRATCH!;
    process.on("uncaughtException", (e) => this.crashed(e));
    process.on("unhandledRejection", (e) => this.crashed(e));
    const kf = path.join(ROOT, "known_findings.json");
    this.known = existsSync(kf) ? JSON.parse(readFileSync(kf, "utf8")).findings.filter((k: Known) => k.property === id) : [];
  }
  /** An exception that nothing caught: the library's own is a violation, the harness's is an error of the check. */
  crashed(e: any): never {
    console.error(e);
    const lines = readFileSync(process.argv[1]!, "utf8").split("\n");
    for (const m of String(e?.stack ?? "").matchAll(/check\.mjs:(\d+):\d+/g)) {
      let i = Number(m[1]) - 1;
      while (i >= 0 && !/^\/\/ \S+\.[cm]?[jt]s$/.test(lines[i]!)) i--;
      if (i >= 0 && /packages\/[^/]+\/src\//.test(lines[i]!)) {
        this.violation("uncaught exception", { where: lines[i]!.replace(/^.*packages\//, ""), error: String(e?.stack).slice(0, 600) });
        this.finish();
      }
      break;
    }
    process.exit(2);
  }
  get thorough() { return this.tier === "thorough"; }
  sample(x: unknown, max = 6) { if (this.samples.length < max) this.samples.push(x); }
  /** A violation; `key` identifies the specific input or history. */
  violation(key: string, detail: unknown) {
    const k = this.known.find((x) => x.key === key);
    if (k) { this.hitKnown.add(k.key); return; }
    if (this.badKeys.has(key)) return;
    this.badKeys.add(key);
    this.bad.push({ key, detail });
    if (process.env.VP_FIRST) this.finish(); // experiments: stop at the first one
  }
  finish(): never {
    mkdirSync(path.join(ROOT, "evidence"), { recursive: true });
    for (const k of this.known) if (this.hitKnown.has(k.key)) console.log(`KNOWN-FINDING: property=${this.id} ${k.what} [${k.key}]`);
    const coverage: Record<string, unknown> = this.level === "model_checking"
      ? { states: this.states, transitions: this.transitions, traces_validated_against_impl: this.traces, samples: this.samples, ...this.extra }
      : { evaluations: this.evaluations, distinct_nontrivial: this.nontrivial.size, samples: this.samples, ...this.extra };
    const ev = {
      property: this.id, tier: this.tier, seed: this.seed, level: this.level, coverage,
      assumptions: this.assumptions, wall_s: (Date.now() - this.t0) / 1000, violations: this.bad.length,
    };
    writeFileSync(path.join(ROOT, "evidence", `${this.id}.json`), JSON.stringify(ev, null, 1) + "\n");
    if (this.bad.length) {
      const f = path.join(ROOT, "evidence", `replay-${this.id}.json`);
      writeFileSync(f, JSON.stringify(this.bad.slice(0, 400), null, 1) + "\n");
      for (const b of this.bad.slice(0, 3)) console.log("  " + b.key + "  " + JSON.stringify(b.detail).slice(0, 600));
      console.log(`VIOLATION property=${this.id} replay=${f}`);
      process.exit(1);
    }
    console.log(`OK property=${this.id} ${JSON.stringify({ states: this.states, traces: this.traces, evaluations: this.evaluations })} ${((Date.now() - this.t0) / 1000).toFixed(1)}s`);
    process.exit(0);
  }
}
