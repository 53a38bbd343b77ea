// C35: git value parsers.  Histories of Git.tla are carried out on a real
// repository, and after every operation the same parsers are asked everything.
import { execFileSync } from "node:child_process";
import { createHash } from "node:crypto";
import fs from "node:fs";
import path from "node:path";
import * as G from "@optique/git";
import { message } from "@optique/core/message";
import { Check } from "../lib/check.ts";
import { Rng } from "../lib/rng.ts";
import { tlc } from "../lib/tlc.ts";

const c = new Check("C35");
const r = new Rng(c.seed * 6007 + 35);
const NUM = c.thorough ? 160 : 24;
const m = await tlc(c.scratch, "Git", {}, { workers: 1, args: ["-simulate", `num=${NUM}`, "-depth", "30", "-seed", String(c.seed * 37 + 5)] });
const mc = await tlc(c.scratch, "Git", {}, { workers: 4, cfg: c.thorough ? "GitMCDeep" : "GitMC" });
c.states = m.states + mc.states; c.transitions = m.transitions + mc.transitions;

interface Run { dir: string; g: Record<string, any>; called: { e: string; available?: string[] } | null; commits: string[]; tags: string[]; blob: string; tree: string; used: Set<string>; reused: boolean; pick: Rng }
let home = 0;
const HOME = path.join(c.scratch, "home"); fs.mkdirSync(HOME, { recursive: true });
function git(run: Run, args: string[], input?: string): string {
  return execFileSync("git", args, { cwd: run.dir, input, stdio: ["pipe", "pipe", "pipe"], env: { PATH: process.env.PATH, HOME, GIT_CONFIG_NOSYSTEM: "1", GIT_CEILING_DIRECTORIES: c.scratch, GIT_AUTHOR_NAME: "a", GIT_AUTHOR_EMAIL: "a@b", GIT_COMMITTER_NAME: "a", GIT_COMMITTER_EMAIL: "a@b" } }).toString().trim();
}
const sha = (type: string, body: string) => createHash("sha1").update(`${type} ${Buffer.byteLength(body)}\0${body}`).digest("hex");
/** Writes an object whose name starts with `prefix`, or with four digits no other object starts with. */
function store(run: Run, type: string, body: (nonce: number) => string, prefix?: string): string {
  for (let n = 0;; n++) {
    const text = body(n), h = sha(type, text);
    if (prefix ? !h.startsWith(prefix) : run.used.has(h.slice(0, 4)) || /^beef/.test(h) || /^0/.test(h)) continue;
    run.used.add(h.slice(0, 4));
    git(run, ["hash-object", "-t", type, "-w", "--stdin"], text);
    return h;
  }
}
function apply(run: Run, x: any, head: { b: string }): void {
  const at = () => git(run, ["rev-parse", "-q", "--verify", "HEAD^{commit}"]);
  switch (x.op) {
    case "init": git(run, ["init", "-q", "-b", "main"]); run.blob = ""; break;
    case "commit": {
      if (!run.blob) {
        run.blob = store(run, "blob", (n) => "text " + n + home);
        fs.writeFileSync(path.join(run.dir, "f"), "");
        run.tree = git(run, ["mktree"], `100644 blob ${run.blob}\tf\n`); run.used.add(run.tree.slice(0, 4));
      }
      let parent = ""; try { parent = `parent ${at()}\n`; } catch { /* the first one */ }
      const t = 1700000000 + run.commits.length * 100;
      const h = store(run, "commit", (n) => `tree ${run.tree}\n${parent}author a <a@b> ${t} +0000\ncommitter a <a@b> ${t} +0000\n\nsubject ${n}\n\nbody\n`, x.k ? run.commits[0]!.slice(0, 4) : undefined);
      run.commits.push(h);
      git(run, ["update-ref", head.b ? "refs/heads/" + head.b : "HEAD", h]);
      break;
    }
    case "merge": {
      // a birthday search for two children of the tip that share seven digits but not nine
      const tip = at(), t = 1700000000 + run.commits.length * 100, by = new Map<string, number>();
      const body = (n: number) => `tree ${run.tree}\nparent ${tip}\nauthor a <a@b> ${t + 100 * (n & 1)} +0000\ncommitter a <a@b> ${t + 100 * (n & 1)} +0000\n\nside ${n}\n`;
      for (let n = 0;; n++) {
        const h = sha("commit", body(n)), d = h.slice(0, 7), o = by.get(d + (n & 1 ? 0 : 1));
        if (o !== undefined && !run.used.has(h.slice(0, 4)) && !/^beef|^0/.test(h) && sha("commit", body(o))[7] !== h[7]) {
          const [p, q] = n & 1 ? [o, n] : [n, o];
          for (const k of [p, q]) { run.commits.push(sha("commit", body(k))); git(run, ["hash-object", "-t", "commit", "-w", "--stdin"], body(k)); }
          run.used.add(h.slice(0, 4));
          break;
        }
        by.set(d + (n & 1), n);
      }
      const [p, q] = run.commits.slice(-2), u = t + 200;
      const h = store(run, "commit", (n) => `tree ${run.tree}\nparent ${p}\nparent ${q}\nauthor a <a@b> ${u} +0000\ncommitter a <a@b> ${u} +0000\n\nmerge ${n}\n`);
      run.commits.push(h);
      git(run, ["update-ref", head.b ? "refs/heads/" + head.b : "HEAD", h]);
      break;
    }
    case "branch": git(run, ["branch", x.a]); break;
    case "unbranch": git(run, ["branch", "-q", "-D", x.a]); break;
    case "switch": git(run, ["symbolic-ref", "HEAD", "refs/heads/" + x.a]); head.b = x.a; break;
    case "detach": git(run, ["update-ref", "--no-deref", "HEAD", run.commits[x.k - 1]!]); head.b = ""; fs.writeFileSync(path.join(run.dir, ".git/HEAD"), run.commits[x.k - 1]! + "\n"); break;
    case "tag": {
      let of = x.b === "blob" ? run.blob : run.commits[x.k - 1]!;
      if (x.b === "annot" || x.b === "nested") {
        const [type, target] = x.b === "annot" ? ["commit", of] : ["tag", run.tags[run.tags.length - 1]];
        of = store(run, "tag", (n) => `object ${target}\ntype ${type}\ntag ${x.a}\ntagger a <a@b> 1700000000 +0000\n\nnote ${n}\n`);
        run.tags.push(of);
      }
      git(run, ["update-ref", "refs/tags/" + x.a, of]);
      break;
    }
    case "untag": git(run, ["tag", "-d", x.a]); break;
    case "remote": git(run, ["remote", "add", x.a, "https://example.invalid/" + x.a]); break;
    case "unremote": git(run, ["remote", "remove", x.a]); break;
    case "fetch": git(run, ["update-ref", `refs/remotes/${x.a}/${x.b}`, run.commits[x.k - 1]!]); break;
    case "pack": if (x.a === "refs") git(run, ["pack-refs", "--all", "--prune"]); else git(run, ["repack", "-a", "-d", "-k", "-q"]); break;
  }
}
const oid = (run: Run, i: any): string => {
  const full = i.o === "commit" ? run.commits[i.k - 1]! : i.o === "tag" ? run.tags[i.k - 1]! : i.o === "none" ? "0123456789".repeat(5) : (run as any)[i.o];
  const t = full.slice(0, i.len); return i.up ? t.toUpperCase() : t;
};
const hex4 = (t: string) => /^[0-9a-f]{1,4}$/.test(t) || t === "beef" || t === "a";
async function ask(run: Run, hist: any[], name: string, input: string, want: any): Promise<void> {
  if (name !== "commit" && hex4(input) && input !== "beef") return; // abbreviations this short are unspecified
  run.called = null; if (input === "") want = { ...want, e: "any" };
  let got: any;
  try {
    const x = await run.g[name].parse(input);
    got = x.success === true ? { ok: true, value: x.value } : x.success === false ? { ok: false, e: (run.called as any)?.e ?? "ambiguous", available: (run.called as any)?.available } : { bad: x };
  } catch (e) { got = { threw: String(e) }; }
  c.evaluations++;
  const value = want.c ? run.commits[want.c - 1] : want.v;
  const okay = want.ok ? got.ok === true && got.value === value
    : got.ok === false && want.e === "any" || got.ok === false && got.e === want.e && (got.available === undefined || JSON.stringify([...got.available].sort()) === JSON.stringify([...want.list].sort()));
  if (!okay) c.violation(`${name} ${JSON.stringify(input)} after ${hist.map((h) => h.op + h.a + h.b + (h.k || "")).join(" ")}`, { want: want.ok ? value : want, got, hist });
}
const chars = async (it: any): Promise<string[]> => { const out: string[] = []; for await (const s of it) out.push(s.text); return out; };
async function suggestions(run: Run, hist: any[], row: any): Promise<void> {
  const A = row.answers.lists, key = hist.map((h: any) => h.op + h.a + h.b + (h.k || "")).join(" ");
  const bad = (name: string, p: string, want: any, got: any) => c.violation(`suggest ${name} ${JSON.stringify(p)} after ${key}`, { want, got });
  for (const name of ["branch", "tag", "remote", "origin", "up"]) {
    for (const p of ["", run.pick.pick(["m", "ma", "main", "fix/", "v", "rel", "o", "up", "dev/x", "z", "M"])]) {
      const want = A[name].filter((w: string) => w.startsWith(p)).sort(), got = (await chars(run.g[name].suggest(p))).sort();
      c.evaluations++;
      if (JSON.stringify(want) !== JSON.stringify(got)) bad(name, p, want, got);
    }
  }
  const seen: string[] = row.suggested.map((i: number) => run.commits[i - 1]);
  const some = seen.length ? run.pick.pick(seen) : "dead";
  for (const p of ["", some.slice(0, run.pick.range(1, 12)), run.pick.pick(["m", "v", "fix/"])]) {
    for (const name of ["commit", "ref"]) {
      const got = await chars(run.g[name].suggest(p));
      const names: string[] = name === "ref" && seen.length ? [...new Set<string>([...A.branch, ...A.tag])].filter((w) => w.startsWith(p)) : [];
      const left = got.filter((t) => !names.includes(t)), of = left.map((t) => seen.find((h) => h.startsWith(t)) ?? "?" + t).sort();
      const want = seen.filter((h) => h.startsWith(p)).sort();
      c.evaluations++;
      if (!seen.length && name === "ref" && got.every((t) => A.branch.includes(t) || A.tag.includes(t))) continue; // nothing checked out: names may still be offered
      if (new Set(got).size !== got.length || names.some((w) => !got.includes(w)) || JSON.stringify(of) !== JSON.stringify(want) || !got.every((t) => t.startsWith(p)) || left.some((t) => t.length < 7))
        bad(name, p, { names, want }, got);
      // what is suggested can be used
      for (const t of left) {
        const back = await run.g[name].parse(t);
        const alike = run.commits.filter((h) => h.startsWith(t));
        if (!back.success && alike.length > 1 && alike.filter((h) => seen.includes(h)).length === 1)
          c.violation("suggested abbreviation shared with a commit that is not suggested", { key, t, alike });
        else if (!(back.success && back.value.startsWith(t))) bad(name, p, "a usable suggestion", { t, back });
      }
    }
  }
}
async function replay(script: any[], rows: Map<string, any>): Promise<void> {
  const dir = path.join(c.scratch, `repo${home++}`); fs.mkdirSync(dir);
  const run: Run = { dir, g: {}, called: null, commits: [], tags: [], blob: "", tree: "", used: new Set(), reused: false, pick: new Rng(r.int(2 ** 31)) };
  const say = (e: string, available?: readonly string[]) => { run.called = { e, available: available && [...available] }; return message`${e}`; };
  const errors = { notFound: (_i: string, av?: readonly string[]) => say("notFound", av), listFailed: (d: string) => say(d === dir ? "listFailed" : "listFailed elsewhere"), invalidFormat: () => say("invalidFormat"), remoteNotFound: (n: string, av: readonly string[]) => say("remoteNotFound", av) };
  const o = { dir, errors, suggestionDepth: 3 };
  const made = run.pick.bool() ? G.createGitParsers({ dir: run.pick.bool() ? dir : "/nonexistent", errors, suggestionDepth: 99 }) : null;
  run.g = made ? { branch: made.branch(o), tag: made.tag(o), remote: made.remote(o), origin: made.remoteBranch("origin", o), up: made.remoteBranch("up", o), commit: made.commit(o), ref: made.ref(o) }
    : { branch: G.gitBranch(o), tag: G.gitTag(o), remote: G.gitRemote(o), origin: G.gitRemoteBranch("origin", o), up: G.gitRemoteBranch("up", o), commit: G.gitCommit(o), ref: G.gitRef(o) };
  const head = { b: "main" };
  for (let k = 0; k <= script.length; k++) {
    const hist = script.slice(0, k);
    if (k) apply(run, script[k - 1], head);
    const row = rows.get(JSON.stringify(hist))!, A = row.answers;
    c.traces++;
    const keep = (p: number) => k === script.length || run.pick.bool(p);
    for (const name of ["branch", "tag", "remote", "origin", "up", "ref"]) for (const [w, want] of Object.entries<any>(A[name])) {
      const likely = want.ok || JSON.stringify(hist[k - 1] ?? "").includes(w);
      if (likely || keep(0.25)) await ask(run, hist, name, w, { ...want, list: want.e === "remoteNotFound" ? A.lists.remote : A.lists[name] ?? [] });
    }
    for (const [w, want] of Object.entries<any>(A.commitWords)) if (keep(0.1)) await ask(run, hist, "commit", w, want);
    for (const x of A.commitOids) if (keep(0.4)) await ask(run, hist, "commit", oid(run, x.i), { ...x.a, list: [] });
    for (const x of A.refOids) if (keep(0.4)) await ask(run, hist, "ref", oid(run, x.i), { ...x.a, list: [] });
    if (keep(0.5)) await suggestions(run, hist, row);
  }
  c.sample({ history: script.map((h) => [h.op, h.a, h.b].filter(Boolean).join(" ")) }, 3);
  fs.rmSync(dir, { recursive: true, force: true });
}
const rows = new Map<string, any>(); let longest: any[][] = [];
for (const row of m.rows) rows.set(JSON.stringify(row.hist), row);
longest = m.rows.map((x: any) => x.hist).filter((h: any[]) => h.length >= 14);
const todo = longest.slice();
await Promise.all(Array.from({ length: 6 }, async () => { for (;;) { const s = todo.pop(); if (!s) return; await replay(s, rows); } }));
c.extra = { histories: longest.length, questions: c.evaluations, operations: 14 };
c.finish();
