// Running TLC and reading back what the specs print as "@@{json}" lines.
import { spawn } from "node:child_process";
import { createHash } from "node:crypto";
import { existsSync, mkdirSync, readFileSync, writeFileSync } from "node:fs";
import path from "node:path";

export interface TlcResult { rows: any[]; states: number; transitions: number; ms: number }
const SPEC = process.env.VP_SPEC ?? "/verif/spec";
let serial = 0;

type Options = { workers?: number; cfg?: string; timeout?: number; args?: string[]; heap?: string };

/** With VP_TLC_CACHE (a directory; only for experiments that run a check many times) results are kept by the contents of all inputs. */
export async function tlc(scratch: string, module: string, env: Record<string, string>, o: Options = {}): Promise<TlcResult> {
  const dir = process.env.VP_TLC_CACHE;
  if (!dir) return run(scratch, module, env, o);
  const h = createHash("sha1").update(JSON.stringify([module, o.cfg, o.args]));
  const seen = new Set<string>();
  const add = (f: string) => {
    const file = path.join(SPEC, f);
    if (seen.has(f) || !existsSync(file)) return;
    seen.add(f);
    const text = readFileSync(file, "utf8");
    h.update(text);
    for (const w of /^EXTENDS (.*)$/m.exec(text)?.[1].split(/[ ,]+/) ?? []) add(w + ".tla");
    for (const w of text.matchAll(/INSTANCE (\w+)/g)) add(w[1] + ".tla");
  };
  add(`${module}.tla`); add(`${o.cfg ?? module}.cfg`);
  for (const [k, v] of Object.entries(env)) h.update(k).update(v.startsWith("/") && existsSync(v) ? readFileSync(v) : v);
  const file = path.join(dir, h.digest("hex") + ".json");
  if (existsSync(file)) return JSON.parse(readFileSync(file, "utf8"));
  if (process.env.VP_TLC_MISS === "exit") { console.log(`inputs of ${module} differ`); process.exit(3); }
  const r = await run(scratch, module, env, o);
  if (process.env.VP_TLC_CACHE_WRITE) writeFileSync(file, JSON.stringify(r));
  return r;
}
function run(scratch: string, module: string, env: Record<string, string>, o: Options): Promise<TlcResult> {
  const meta = path.join(scratch, `tlc${serial++}`);
  mkdirSync(meta, { recursive: true });
  const jar = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar";
  const args = ["-XX:+UseParallelGC", "-Xss64m", `-Xmx${o.heap ?? "6g"}`, `-Djava.io.tmpdir=${meta}`, "-cp", jar, "tlc2.TLC", "-workers", String(o.workers ?? 4), "-metadir", meta,
    "-noGenerateSpecTE", "-config", path.join(SPEC, `${o.cfg ?? module}.cfg`), ...(o.args ?? []), path.join(SPEC, `${module}.tla`)];
  const t0 = Date.now();
  return new Promise((res, rej) => {
    const p = spawn("java", args, { env: { ...process.env, ...env }, cwd: meta, stdio: ["ignore", "pipe", "pipe"] });
    const rows: any[] = [];
    let rest = "", tail = "", states = 0, transitions = 0;
    const line = (l: string) => {
      if (l.startsWith('"@@')) { rows.push(JSON.parse(JSON.parse(l).slice(2))); return; }
      const m = /^(\d+) states generated, (\d+) distinct states found/.exec(l);
      const sim = /^The number of states generated: (\d+)/.exec(l);
      if (sim) transitions = states = Number(sim[1]);
      if (m) { transitions = Number(m[1]); states = Number(m[2]); }
      if (l && !/^Progress|^Parsing|^Semantic/.test(l)) tail = (tail + l + "\n").slice(-6000);
    };
    p.stdout.setEncoding("utf8");
    p.stdout.on("data", (d: string) => { rest += d; const ls = rest.split("\n"); rest = ls.pop()!; ls.forEach(line); });
    p.stderr.on("data", (d) => { tail = (tail + d).slice(-6000); });
    const timer = setTimeout(() => p.kill("SIGKILL"), o.timeout ?? 840000);
    p.on("close", (code) => {
      clearTimeout(timer);
      if (rest) line(rest);
      if (code !== 0) rej(new Error(`TLC ${module} exited ${code}\n${tail}`));
      else res({ rows, states, transitions, ms: Date.now() - t0 });
    });
  });
}
export function ndjson(file: string, rows: unknown[]): string {
  writeFileSync(file, rows.map((r) => JSON.stringify(r)).join("\n") + "\n");
  return file;
}
