// node checks/run.mjs <property id>: bundle the harness with the sources in
// /repo, run the check of the property in a scratch directory, clean up.
import { mkdirSync, mkdtempSync, rmSync, readFileSync, writeFileSync } from "node:fs";
import { spawnSync } from "node:child_process";
import os from "node:os";
import path from "node:path";
import { bundle } from "../harness/build.mjs";

const here = path.dirname(new URL(import.meta.url).pathname);
const root = path.dirname(here);
const id = process.argv[2];
const table = JSON.parse(readFileSync(path.join(here, "table.json"), "utf8"));
const mod = table[id];
if (!mod) { console.error("no check for " + id); process.exit(2); }
const scratch = mkdtempSync(path.join(os.tmpdir(), "vp-"));
let code = 2;
const thorough = process.argv.includes("--thorough") || process.env.VERIF_TIER === "thorough";
try {
  const out = path.join(scratch, "check.mjs");
  try {
    await bundle(path.join(root, "harness/checks", mod + ".ts"), out);
  } catch (e) { console.error("cannot bundle: " + (e?.message ?? e)); throw e; }
  const r = spawnSync("node", ["--max-old-space-size=6000", "--stack-size=4000", out, id], {
    stdio: "inherit", cwd: scratch, ...(thorough ? {} : { timeout: 780_000, killSignal: "SIGKILL" }),
    env: { ...process.env, VP_SCRATCH: scratch, VP_ROOT: root, VP_SPEC: path.join(root, "spec"), ...(thorough ? { VERIF_TIER: "thorough" } : {}) },
  });
  code = r.status ?? 2;
  if (r.error?.code === "ETIMEDOUT") {
    // a quick check takes well under two minutes: the code under test does not terminate
    const f = path.join(root, "evidence", `replay-${id}.json`);
    mkdirSync(path.dirname(f), { recursive: true });
    writeFileSync(f, JSON.stringify([{ key: "no end", detail: "the check was stopped after 13 minutes inside the code under test" }]) + "\n");
    console.log(`VIOLATION property=${id} replay=${f}`);
    code = 1;
  }
} finally {
  rmSync(scratch, { recursive: true, force: true });
}
process.exit(code);
