// C24: command discovery and dispatch.  Trees of files are listed by
// Discover.tla and by the real discovery, module map and generator.
import fs from "node:fs";
import path from "node:path";
import { pathToFileURL } from "node:url";
import * as C from "@optique/core";
import * as D from "@optique/discover";
import { generateCommandsModule, writeCommandsModule } from "@optique/discover/generator";
import { Check } from "../lib/check.ts";
import { Rng } from "../lib/rng.ts";
import { ndjson, tlc } from "../lib/tlc.ts";

const c = new Check("C24");
const r = new Rng(c.seed * 3571 + 24);
const n = c.thorough ? 2500 : 320;
const G: any = globalThis; G.__vp = []; G.__vpDiscover = D;

const STEMS = ["a", "ab", "b", "index", "mod", "a.b", "test", "spec", "x-y", "a.test", "b.spec", "a.d", "A", "_h", "a.cmd", "tests"];
const SUFF = [".ts", ".mts", ".js", ".mjs", ".cmd.ts", ".cmd.js", ".x.cmd.ts", ".d.ts", ".d.mts", ".d.cts", ".txt", "", ".json"];
const EXTS = [[".ts"], [".js"], [".ts", ".cmd.ts"], [".cmd.ts", ".ts"], [".mjs", ".js", ".ts"], [".cmd.ts"], [".js", ".cmd.js", ".ts", ".mts"], [".cmd.ts", ".x.cmd.ts", ".ts"]];
const DIRS = ["a", "b", "ab", "index", "mod", "lib.ts", "a.b", "c", ".hid"];

function tree(r: Rng): any {
  const exts = r.pick(EXTS), entry: any = r.pick([undefined, undefined, undefined, undefined, undefined, false, "mod", "mod", "index", "a"]);
  const dirs: any[][] = [[]], parent = [0], cmds: any[] = [];
  const free = r.bool(0.75), size = free ? r.range(1, 6) : r.range(6, 14);
  let count = 0;
  for (let guard = 0; count < size && guard < 60; guard++) {
    const d = r.int(dirs.length), w = r.u();
    const has = (nm: string) => dirs[d].some((e) => e.n === nm);
    if (w < 0.26 && dirs.length < 5) {
      const nm = r.pick(DIRS); if (has(nm)) continue;
      dirs.push([]); parent.push(d); dirs[d].push({ n: nm, t: "dir", to: dirs.length, link: false, id: 0, bad: false }); count++;
    } else if (w < 0.32) {
      const nm = r.pick([...DIRS, "lnk"]); if (has(nm)) continue;
      dirs[d].push({ n: nm, t: "dir", to: r.int(dirs.length) + 1, link: true, id: 0, bad: false }); count++;
    } else if (w < 0.36) {
      const nm = r.pick(STEMS) + r.pick(SUFF); if (has(nm)) continue;
      dirs[d].push({ n: nm, t: "broken", to: 0, link: true, id: 0, bad: false }); count++;
    } else {
      const nm = r.pick(STEMS) + (r.bool(0.75) ? r.pick(exts) : r.pick(SUFF)); if (has(nm)) continue;
      const id = cmds.length + 1;
      cmds.push({ al: r.bool(0.2) ? ["al" + id] : [], pos: r.bool(0.3) });
      dirs[d].push({ n: nm, t: "file", to: 0, link: r.bool(0.1), id, bad: r.bool(0.01) }); count++;
    }
  }
  // a command reached under two names would claim its alias twice
  if (dirs.some((es) => es.some((e) => e.t === "dir" && e.link))) cmds.forEach((x) => { x.al = []; });
  const words = [...STEMS, ...DIRS, ...cmds.flatMap((x) => x.al)];
  const argvs: string[][] = [[]];
  // words along the tree, and stray ones
  const walkNames = (d: number, depth: number): string[] => {
    const e = dirs[d].filter((x) => x.t !== "broken"); if (!e.length || depth > 3) return [];
    const x = r.pick(e); let nm = x.n;
    if (x.t === "dir") return [nm, ...(r.bool(0.85) ? walkNames(x.to - 1, depth + 1) : [])];
    for (const s of [...exts].sort((p: string, q: string) => q.length - p.length)) if (nm.endsWith(s)) { nm = nm.slice(0, -s.length); break; }
    return nm === (entry === undefined ? "index" : entry) && r.bool(0.7) ? [] : [r.bool(0.2) && cmds[x.id - 1].al[0] || nm];
  };
  for (let i = 0; i < 9; i++) argvs.push([...walkNames(0, 0), ...(r.bool(0.25) ? [r.pick(words)] : [])]);
  return { exts, entry: entry === undefined ? "index" : entry === false ? "" : entry, opt: entry, dirs, cmds, argvs, free };
}
const trees = Array.from({ length: n }, () => tree(new Rng(r.int(2 ** 31))));
const m = await tlc(c.scratch, "Discover", { ENTRIES: ndjson(path.join(c.scratch, "t.ndjson"), trees.map(({ opt: _o, ...t }) => t)) }, { workers: 8 });
c.states = m.states; c.transitions = m.transitions;

// the generated module imports the package by its name
const shim = path.join(c.scratch, "node_modules", "@optique", "discover");
fs.mkdirSync(shim, { recursive: true });
fs.writeFileSync(path.join(shim, "package.json"), '{"name":"@optique/discover","type":"module","main":"index.js"}');
fs.writeFileSync(path.join(shim, "index.js"), "export const commandsFromModules = globalThis.__vpDiscover.commandsFromModules;\n");

class Exit { constructor(public code: number) {} }
let calls: any[] = [];
let serial = 0;
for (const row of m.rows) {
  const t = trees[row.ix - 1], root = path.join(c.scratch, "tree" + serial++), dir = path.join(root, r.pick(["cmds", "cmds", "my cmds", "c#s", ".cmds"]));
  const paths = new Map<string, string[]>(row.cmds.map((x: any) => [String(x.id), x.path]));
  const defs = t.cmds.map((k: any, i: number) => D.defineCommand({
    ...(r.bool(0.15) && paths.has(String(i + 1)) && row.cmds.filter((x: any) => x.id === i + 1).length === 1 ? { path: paths.get(String(i + 1)) } : {}),
    parser: C.object({ n: C.optional(C.option("--n", C.string())), ...(k.pos ? { x: C.optional(C.argument(C.string())) } : {}) }) as any,
    metadata: { ...(k.al.length ? { aliases: k.al } : {}), ...(r.bool(0.15) ? { hidden: true } : {}) },
    handler(v: any) { calls.push({ id: i + 1, n: v.n ?? "", x: v.x ?? "" }); },
  }));
  const real: string[] = [];
  const place = (d: number): string => {
    if (real[d]) return real[d];
    return real[d] = d === 0 ? dir : "";
  };
  place(0); fs.mkdirSync(dir, { recursive: true });
  // real directories first, then everything else
  const mk = (d: number) => { for (const e of t.dirs[d]) if (e.t === "dir" && !e.link) { real[e.to - 1] = path.join(real[d], e.n); fs.mkdirSync(real[e.to - 1]); mk(e.to - 1); } };
  mk(0);
  t.dirs.forEach((es: any[], d: number) => es.forEach((e: any) => {
    const f = path.join(real[d], e.n);
    if (e.t === "dir") { if (e.link) fs.symlinkSync(real[e.to - 1], f); return; }
    if (e.t === "broken") { fs.symlinkSync(path.join(root, "missing"), f); return; }
    const used = row.cmds.some((x: any) => x.id === e.id);
    const text = used
      ? e.bad ? "export default { parser: 1 };\n" : (G.__vp[serial * 100 + e.id] = defs[e.id - 1], `const d = globalThis.__vp[${serial * 100 + e.id}];\nexport default ${r.pick(["d", "d", "{ default: d }"])};\n`)
      : "throw new Error('this file must not be imported');\n";
    if (e.link) { const tgt = path.join(root, `file${e.id}-${d}.mjs`); fs.writeFileSync(tgt, text); fs.symlinkSync(tgt, f); } else fs.writeFileSync(f, text);
  }));
  const opts = { extensions: r.shuffle([...t.exts]), ...(t.opt === undefined ? {} : { entryFileName: t.opt }) };
  const key = JSON.stringify(t.dirs) + JSON.stringify(opts);
  const view = (cs: readonly any[]) => JSON.stringify(cs.map((x) => [x.path, defs.indexOf(x.command) + 1]).sort((a: any, b: any) => JSON.stringify(a) < JSON.stringify(b) ? -1 : 1));
  const wantView = JSON.stringify(row.cmds.map((x: any) => [x.path, x.id]).sort((a: any, b: any) => JSON.stringify(a) < JSON.stringify(b) ? -1 : 1));
  let commands: readonly any[] | undefined;
  const judge = async (what: string, f: () => Promise<readonly any[]> | readonly any[], want = wantView, reject = row.reject): Promise<readonly any[] | undefined> => {
    c.traces++;
    let got: readonly any[] | undefined, err: any;
    try { got = await f(); } catch (e) { err = e; }
    const bad = reject ? !(err instanceof TypeError) : err !== undefined || view(got!) !== want;
    if (bad) c.violation(`${what} ${key}`, { what, tree: t, want: reject ? "TypeError" : JSON.parse(want), got: got && JSON.parse(view(got)), error: String(err?.stack ?? err) });
    return got;
  };
  const plainSorted = (cs: readonly any[]) => cs;
  commands = await judge("discoverCommands", async () => plainSorted(await D.discoverCommands({ dir: r.bool(0.5) ? dir : pathToFileURL(dir + "/"), ...opts })));
  // the same files as a module map, in any order
  const links = t.dirs.some((es: any[]) => es.some((e: any) => e.link && e.t === "dir"));
  const base = r.pick(["./commands", "commands", "./src/commands/", "../c", "/abs/c", "."]);
  const keys = r.shuffle([...row.cmds.map((x: any) => ({ f: x.file, id: x.id })), ...row.other.map((f: any) => ({ f, id: 0 }))]);
  const map: Record<string, unknown> = {};
  const bads = new Set(t.dirs.flat().filter((e: any) => e.bad).map((e: any) => e.id));
  for (const k of keys) map[(base === "." ? "./" : base.endsWith("/") ? base : base + "/") + (r.bool(0.1) ? "zz/../" : "") + k.f.join("/")] = k.id === 0 ? {} : bads.has(k.id) ? { default: {} } : { default: defs[k.id - 1] };
  await judge("commandsFromModules", () => D.commandsFromModules(map, { ...opts, base }));
  if (!row.reject) {
    const outside = { ...map, ["/elsewhere/q" + t.exts[0]]: { default: defs[0] } };
    await judge("module outside base", () => D.commandsFromModules(outside, { ...opts, base }), "", true);
    const id = row.cmds[0].id, wrong: Record<string, unknown> = { ...map };
    for (const k of Object.keys(wrong)) if ((wrong[k] as any).default === defs[id - 1]) wrong[k] = { default: D.defineCommand({ ...defs[id - 1], path: ["quite", "else"] }) };
    await judge("declared path", () => D.commandsFromModules(wrong, { ...opts, base }), "", true);
  }
  // and as a generated module
  const out = r.pick([path.join(root, "gen.mjs"), path.join(dir, "gen" + r.pick(t.exts.filter((e: string) => e.endsWith("ts") || e.endsWith("js")))), path.join(root, "deep", "er", "gen.mjs")]);
  if (!links) {
    if (row.reject && bads.size === 0) await judge("generateCommandsModule", async () => { await generateCommandsModule({ dir, outputFile: out, ...opts }); return []; });
    else if (!row.reject)
      await judge("generated module", async () => {
        if (r.bool(0.5)) await writeCommandsModule({ dir, outputFile: out, ...opts, ...(r.bool(0.3) ? { base } : {}) });
        const g = await writeCommandsModule({ dir: pathToFileURL(dir + "/"), outputFile: out, ...opts, ...(r.bool(0.3) ? { base } : {}) });
        const file = out + `.${serial}.mjs`; fs.renameSync(out, file); void g;
        try { return (await import(pathToFileURL(file).href)).default; } finally { fs.rmSync(file); }
      });
  }
  // dispatch
  if (!row.reject && commands)
    for (let i = 0; i < t.argvs.length; i++) {
      const a = row.answers[i], words = t.argvs[i], opt = r.bool(0.6) ? ["--n", "v" + i] : [];
      const args = a.late && r.bool(0.5) ? [...words.slice(0, -1), ...opt, words.at(-1)] : [...words, ...opt];
      calls = []; c.traces++;
      let end = "done", err: any;
      try {
        await D.runProgram({ ...(r.bool(0.7) ? { commands: r.shuffle([...commands]) } : { dir, ...opts }), metadata: { name: "prog" }, args, stdout() {}, stderr() {}, onExit: (code: number) => { throw new Exit(code); } } as any);
      } catch (e) { err = e; end = e instanceof Exit ? "exit" + e.code : "throw"; }
      const want = a.k === "call" ? [{ id: a.id, n: opt[1] ?? "", x: a.x }] : [];
      const bad = JSON.stringify(calls) !== JSON.stringify(want) || (a.k === "call" ? end !== "done" : end !== "exit1");
      if (bad) c.violation(`dispatch ${JSON.stringify(args)} ${key}`, { what: "dispatch", args, tree: t, cmds: row.cmds, want, got: calls, end, error: String(err?.stack ?? err) });
      else c.sample({ args, want, cmds: row.cmds.map((x: any) => x.path) }, 5);
    }
  fs.rmSync(root, { recursive: true, force: true });
}
c.finish();
