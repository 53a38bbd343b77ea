// C34: what shells make of completions.  Shells.tla writes suggestions and
// reads them back a character at a time; the output of the real encoders and
// of real runs is read by the same machine, and the generated scripts are run
// in the real shells.
import fs from "node:fs";
import path from "node:path";
import { spawnSync } from "node:child_process";
import * as C from "@optique/core";
import { bash, fish, nu, pwsh, zsh } from "@optique/core/completion";
import { runParser } from "@optique/core/facade";
import { formatMessage, text as textPart } from "@optique/core/message";
import { path as pathValue } from "@optique/run/valueparser";
import { Check } from "../lib/check.ts";
import { Rng } from "../lib/rng.ts";
import { ndjson, tlc } from "../lib/tlc.ts";

const c = new Check("C34");
const r = new Rng(c.seed * 7477 + 34);
const NAMED: Record<string, string> = { NL: "\n", CR: "\r", TAB: "\t", NUL: "\0", U1: "é", U2: "😀", U3: "\u2028" };
const BACK: Record<string, string> = Object.fromEntries(Object.entries(NAMED).map(([k, v]) => [v, k]));
const str = (t: string[]): string => t.map((x) => NAMED[x] ?? x).join("");
const tok = (s: string): string[] => [...s].map((x) => BACK[x] ?? x);
const SHELLS = { bash, zsh, fish, nu, pwsh } as Record<string, any>;
const have = (s: string) => spawnSync(s, ["-c", "true"]).status === 0;
const REAL = ["bash", "zsh", "fish"].filter(have);

const real = (items: any[]) => items.map((s) => {
  const description = s.msg === undefined ? undefined : [textPart(s.msg)];
  return s.k === "literal" ? { kind: "literal", text: str(s.text), ...(description ? { description } : {}) }
    : { kind: "file", type: s.type, ...(s.exts.length || s.some ? { extensions: s.exts.map(str) } : {}), ...(s.pattern.length || s.some ? { pattern: str(s.pattern) } : {}), ...(s.hidden || s.some ? { includeHidden: s.hidden } : {}), ...(description ? { description } : {}) };
}) as any[];
const desc = (s: any) => tok(s.msg === undefined ? "" : formatMessage([textPart(s.msg)], { colors: false }));
const giving = (items: any[], mode = "sync") => {
  const list = real(items);
  const vp: any = { mode, metavar: "X", placeholder: "", parse: mode === "sync" ? (s: string) => ({ success: true, value: s }) : async (s: string) => ({ success: true, value: s }), format: (s: string) => s,
    suggest: mode === "sync" ? function* () { yield* list; } : async function* () { yield* list; } };
  return C.option("--o", vp);
};
/** What the program prints to a terminal: every text ends with a newline. */
const printed = async (parser: any, args: string[], o: any = {}): Promise<string> => {
  let out = "";
  const x: any = runParser(parser, "app", args, { completion: { command: true, option: true, onShow: () => 0 }, stdout: (s: string) => { out += s + "\n"; }, stderr: () => {}, onError: () => 0, ...o } as any);
  if (x instanceof Promise) await x;
  return out;
};

// ---- cases
const SIGMA = ["a", " ", "TAB", "NL", "CR", "NUL", ":", "\\", "%"];
const words = (n: number): string[][] => n === 0 ? [[]] : [[], ...words(n - 1).flatMap((w) => SIGMA.map((s) => [...w, s]))].filter((w, k, all) => all.findIndex((v) => v.join() === w.join()) === k);
const W1 = words(1), W2 = words(2);
const cases: any[] = [];
const add = (shell: string, items: any[]) => cases.push({ mode: "wire", shell, items: items.map((s) => ({ ...s, desc: desc(s) })) });
const lit = (t: string[], msg?: string) => ({ k: "literal", text: t, ...(msg === undefined ? {} : { msg }) });
for (const shell of Object.keys(SHELLS)) {
  add(shell, []);
  for (const t of W2) if (t.length) { add(shell, [lit(t)]); add(shell, [lit(t), lit(["b"], "d")]); add(shell, [lit(["b"], "d"), lit(t, "e")]); }
  for (const t of W1) if (t.length) for (const d of W2) add(shell, [lit(t, str(d)), lit(["b"])]);
  for (const type of ["file", "directory", "any"]) for (const hidden of [true, false]) for (const p of W1) for (const exts of [[], [["j"]], [[".", "j"], ["a", "b"]]]) {
    add(shell, [{ k: "file", type, exts, pattern: p, hidden, ...(r.bool() ? { msg: "D" } : {}), some: r.bool() }]);
  }
  if (c.thorough) for (const t of words(3)) if (t.length === 3) add(shell, [lit(t, "x"), lit(["b"])]);
}
const exhaustive = cases.length;
const PIECES = ["a", "b", "-", "--opt", "=", " ", "  ", "\t", "\n", "\r", "\0", ":", "::", "\\", "\\n", "\\:", "%", "%3A", "%25", "'", '"', "$x", "$(x)", "`x`", "*", "?", "[a]", "{a,b}", "~", "/", "http://", "é", "😀", "\u2028", ";", "|", "&", "<", ">", "(", ")", "#", "!", ",", ".", "__FILE__", "\\0", "-n", "-e", "+", "@", "^"];
const some = (g: Rng, lo: number, hi: number) => Array.from({ length: g.range(lo, hi) }, () => g.pick(PIECES)).join("");
const clean = (t: string[]) => str(t).replace(/[\t\n\r\0]/g, " ");
function literal(g: Rng, seen: Set<string>): any {
  for (;;) {
    const t = tok(some(g, 1, 4)), s = clean(t);
    if (seen.has(s) || s.startsWith("__FILE__:")) continue;
    seen.add(s);
    return lit(t, g.bool(0.6) ? some(g, 0, 4) : undefined);
  }
}
const file = (g: Rng) => ({ k: "file", type: g.pick(["file", "directory", "any"]), hidden: g.bool(), some: g.bool(), exts: Array.from({ length: g.pick([0, 0, 1, 2, 3]) }, () => tok(g.pick([".txt", "json", ".tar.gz", "é", "a\tb", ".x\n"]))).filter((e) => !/[\t\n]/.test(str(e))), pattern: tok(some(g, 0, 3)), ...(g.bool() ? { msg: some(g, 0, 3) } : {}) });
const n1 = exhaustive + (c.thorough ? 20000 : 2500);
while (cases.length < n1) {
  const g = new Rng(r.int(2 ** 31)), seen = new Set<string>();
  const shell = g.pick(Object.keys(SHELLS));
  add(shell, Array.from({ length: g.pick([1, 1, 2, 3, 5, 8]) }, () => g.bool(0.12) ? file(g) : literal(g, seen)));
}
for (const [n, k] of cases.entries()) {
  const joined = [...SHELLS[k.shell].encodeSuggestions(real(k.items))].join("");
  k.wires = [tok(joined === "" ? "" : joined + "\n")];
  const viaRun = n >= exhaustive || n % 5 === 0;
  if (viaRun) k.wires.push(tok(await printed(giving(k.items, n % 2 ? "sync" : "async"), [...(n % 3 ? ["completion", k.shell] : ["--completion=" + k.shell]), "--o", ""])));
}
// ---- file suggestions in a real directory
const TREE: any[] = [];
const node = (dir: string, name: string, isdir: boolean) => TREE.push({ dir, name, isdir });
for (const [d, names] of [["", ["a.txt", "a.json", "ab.txt", "b.tar.gz", "b", "it's.txt", "x y.txt", "é.txt", ".hid.txt", ".env", "c:d.txt", "p%q.txt", "Z.TXT", "a.txta", "txt", "[z].txt", "back\\s.txt"]], ["s/", ["m.ts", "n.txt", ".o.txt", "m2.ts"]], ["s/t/", ["deep.ts"]], [".cfg/", ["k.txt", ".l"]]] as [string, string[]][]) for (const x of names) node(d, x, false);
node("", "s", true); node("", "sub dir", true); node("", ".cfg", true); node("s/", "t", true); node("", "e", true); node("", "u.txt", true); node("s/", ".dot", true);
const tree = TREE.map((e) => ({ ...e, dir: tok(e.dir), name: tok(e.name) }));
const root = path.join(c.scratch, "tree");
for (const e of TREE) { const p = path.join(root, e.dir, e.name); if (e.isdir) fs.mkdirSync(p, { recursive: true }); else { fs.mkdirSync(path.dirname(p), { recursive: true }); fs.writeFileSync(p, ""); } }
const fileCases: any[] = [];
const typed = ["", "a", "a.", "ab", "b", "x", ".h", ".e", "s/", "s/m", "s/.o", "s/t/", "s/t/d", "su", "e/", "zz", "./", "./a", "./s/", "./s/m", "./.h", "Z", "u", "i", "c", "p", "é", ".cfg/k", "[", "back"];
for (const type of ["file", "directory", "any"]) for (const exts of [[], [".txt"], [".json", ".ts"], [".gz"], [".tar.gz"]]) for (const w of typed) {
  if (type === "directory" && exts.length) continue;
  const cut = w.lastIndexOf("/") + 1, lead = w.startsWith("./") ? "./" : "";
  for (const shell of REAL) fileCases.push({ mode: "files", shell, type, exts: exts.map(tok), typed: w, lead, dir: tok(w.slice(lead.length, Math.max(cut, lead.length))), base: tok(w.slice(cut)), tree, items: [], wires: [] });
}
cases.push(...fileCases);
// stray wires of files mode are not read
const m = await tlc(c.scratch, "Shells", { ENTRIES: ndjson(path.join(c.scratch, "c.ndjson"), cases.map(({ typed: _t, lead: _l, ...k }) => k)) }, { workers: 8, heap: "8g" });
c.states = m.states; c.transitions = m.transitions;
const wanted = new Map<number, any[]>(), entries = new Map<number, number[]>();
for (const row of m.rows) {
  const k = cases[row.ix - 1];
  if (row.entries) { entries.set(row.ix, row.entries); continue; }
  wanted.set(row.ix, row.wanted);
  if (row.by !== 0) c.violation("wire", { shell: k.shell, through: row.by === 1 ? "encodeSuggestions()" : "a run", suggestions: real(k.items), output: str(k.wires[row.by - 1]), recovered: row.read, intended: row.wanted });
}
for (const k of cases) c.traces += k.wires.length;

// ---- the generated scripts in the shells themselves
const q = (s: string) => "'" + s.replaceAll("'", "'\\''") + "'";
const qf = (s: string) => "'" + s.replaceAll("\\", "\\\\").replaceAll("'", "\\'") + "'";
type Job = { id: number; prev: string[]; cur: string };
const dir = path.join(c.scratch, "sh");
fs.mkdirSync(dir, { recursive: true });
const out = (id: number) => path.join(dir, `out.${id}`), res = (id: number) => path.join(dir, `res.${id}`), argv = (id: number) => path.join(dir, `argv.${id}`);
const script = await Promise.all(REAL.map(async (s) => [s, await printed(giving([]), ["completion", s])] as const)).then((x) => new Map(x));
function drive(shell: string, jobs: Job[]): void {
  const f = path.join(dir, `driver.${shell}`);
  const js = jobs;
  let t = "";
  if (shell === "bash") {
    t = `cd ${q(root)}\napp() { printf '%s\\0' "$@" > "${dir}/argv.$ID"; cat "${dir}/out.$ID"; }\n${script.get(shell)}\n`;
    for (const j of js) t += `ID=${j.id}; COMP_WORDS=(app ${[...j.prev, j.cur].map(q).join(" ")}); COMP_CWORD=${j.prev.length + 1}; COMPREPLY=(); _app app ${q(j.cur)} ${q(j.prev.at(-1) ?? "app")}; if (( \${#COMPREPLY[@]} )); then printf '%s\\0' "\${COMPREPLY[@]}" > ${res(j.id)}; else : > ${res(j.id)}; fi\n`;
  } else if (shell === "zsh") {
    t = `cd ${q(root)}\ncompdef() { :; }\napp() { printf '%s\\0' "$@" > "${dir}/argv.$ID"; cat "${dir}/out.$ID"; }\n` +
      `_describe() { local m; for m in "\${(@P)2}"; do printf 'D%s\\0' "$m" >> "${dir}/res.$ID"; done; }\n` +
      // the standard helpers, reduced to what they enumerate
      `_ls() { local f; local -a fs; if [[ -n "$1" ]]; then fs=(\${~\${(b)PREFIX}//\\\\\\~/\\~}*(-/N)); else fs=(\${~\${(b)PREFIX}//\\\\\\~/\\~}*(N)); fi; for f in $fs; do if [[ -d "$f" ]]; then printf 'F%s/\\0' "$f"; else printf 'F%s\\0' "$f"; fi >> "${dir}/res.$ID"; done; }\n` +
      `_list() { if [[ "\${PREFIX##*/}" == .* ]]; then setopt local_options glob_dots; fi; _ls "$1"; }\n` +
      `_files() { _list ''; }\n_directories() { _list dirs; }\n` +
      `_path_files() { if [[ "$1" == -/ ]]; then _list dirs; else setopt local_options extended_glob; _ext "$2"; fi; }\n` +
      `_ext() { if [[ "\${PREFIX##*/}" == .* ]]; then setopt local_options glob_dots; fi; local d="\${PREFIX%\${PREFIX##*/}}" f; for f in \${(b)d}\${~1}(N); do [[ "$f" == "\${PREFIX}"* ]] && printf 'F%s\\0' "$f" >> "${dir}/res.$ID"; done; }\n` +
      `_wanted() { local e=$2; shift 3; "$@"; }\n${script.get(shell)}\n`;
    for (const j of js) t += `ID=${j.id}; : > ${res(j.id)}; words=(app ${[...j.prev, j.cur].map(q).join(" ")}); CURRENT=${j.prev.length + 2}; PREFIX=${q(j.cur)}; _app\n`;
  } else {
    t = `cd ${qf(root)}\nfunction app; if test (count $argv) -gt 0; printf '%s\\0' $argv > ${dir}/argv.$ID; end; cat ${dir}/out.$ID; end\nfunction complete; end\n` +
      `function commandline; switch $argv[1]; case '-poc'; printf '%s\\n' $TOKENS; case '-ct'; printf '%s\\n' $CUR; end; end\n${script.get(shell)}\n`;
    for (const j of js) t += `set -g ID ${j.id}; set -g TOKENS app ${j.prev.map(qf).join(" ")}; set -g CUR ${qf(j.cur)}; __app_complete > ${res(j.id)}\n`;
  }
  fs.writeFileSync(f, t);
  const p = spawnSync(shell, shell === "bash" ? ["--norc", "--noprofile", f] : shell === "zsh" ? ["-f", f] : ["--no-config", f], { cwd: root, encoding: "utf8", timeout: 600000, env: { PATH: process.env.PATH, HOME: root, LANG: "C.UTF-8", LC_ALL: "C.UTF-8" } });
  if (process.env.C34_DEBUG) console.error(shell, p.status, p.stderr.slice(0, 1500), p.stdout.slice(0, 300));
  if (p.status !== 0 && p.error) throw new Error(`${shell}: ${p.error.message}`);
}
const unescape = (s: string): [string, string] => {
  let v = "", i = 0, d = "";
  for (; i < s.length && s[i] !== ":"; i++) { if (s[i] === "\\" && i + 1 < s.length) i++; v += s[i]; }
  for (i++; i < s.length; i++) { if (s[i] === "\\" && i + 1 < s.length) i++; d += s[i]; }
  return [v, d];
};
const results = (shell: string, id: number): [string, string][] => {
  const raw = fs.readFileSync(res(id), "utf8");
  if (shell === "bash") return raw.split("\0").slice(0, -1).map((x) => [x, ""]);
  if (shell === "fish") return raw.split("\n").slice(0, -1).map((x) => { const k = x.indexOf("\t"); return k < 0 ? [x, ""] : [x.slice(0, k), x.slice(k + 1)]; });
  return raw.split("\0").slice(0, -1).map((x) => x[0] === "D" ? unescape(x.slice(1)) : [x.slice(1), ""]);
};
const WORDS = ["build", "--opt", "--opt=1", "-x", "it's", "a b", "$x", "*", "é", "--", "\\", '"', "a:b", "!", "#c", "(", ";"];
for (const shell of REAL) {
  const jobs: Job[] = [], meant = new Map<number, any>();
  for (const [n, k] of cases.entries()) {
    if (k.shell !== shell) continue;
    const id = n + 1;
    if (k.mode === "wire") {
      if (k.items.some((s: any) => s.k !== "literal") || k.wires.length < 2) continue;
      if (n < exhaustive && !c.thorough && n % 3) continue;
      fs.writeFileSync(out(id), str(k.wires[1]));
      const prev = Array.from({ length: r.int(4) }, () => r.pick(WORDS));
      jobs.push({ id, prev, cur: r.pick(["", "", "a", "--o", ...WORDS]) });
      meant.set(id, (wanted.get(id) ?? []).map((x: any) => [str(x.text), str(x.desc)]));
    } else {
      const opt: any = k.type === "any" ? { type: "either" } : { type: k.type };
      if (k.exts.length) opt.extensions = k.exts.map(str);
      fs.writeFileSync(out(id), await printed(C.option("--f", pathValue(opt) as any), ["completion", shell, "--f", k.typed]));
      jobs.push({ id, prev: ["--f"], cur: k.typed });
      meant.set(id, (entries.get(id) ?? []).map((e) => k.lead + str(tree[e - 1].dir) + str(tree[e - 1].name) + (tree[e - 1].isdir ? "/" : "")));
    }
  }
  drive(shell, jobs);
  for (const j of jobs) {
    const k = cases[j.id - 1], want = meant.get(j.id);
    c.traces++;
    if (!fs.existsSync(res(j.id))) { c.violation("script", { shell, problem: "the script produced nothing", job: j }); continue; }
    const got = results(shell, j.id);
    const args = fs.existsSync(argv(j.id)) ? fs.readFileSync(argv(j.id), "utf8").split("\0").slice(0, -1) : [];
    const call = ["completion", shell, ...j.prev, j.cur];
    if (JSON.stringify(args) !== JSON.stringify(call)) c.violation("call", { shell, typed: [...j.prev, j.cur], called: args, intended: call });
    if (k.mode === "wire") {
      if (JSON.stringify(got) !== JSON.stringify(want)) c.violation("script", { shell, suggestions: real(k.items), got, want });
      else c.sample({ shell, suggestions: want.length, candidates: got.length }, 6);
    } else {
      const a = [...new Set(got.map((x) => x[0].replace(/\/+$/, "/")))].sort(), b = [...new Set(want as string[])].sort();
      if (JSON.stringify(a) !== JSON.stringify(b)) c.violation("files-" + shell, { shell, type: k.type, extensions: k.exts.map(str), typed: k.typed, got: a, want: b });
    }
  }
}
// known findings
if ([...bash.encodeSuggestions([{ kind: "literal", text: "__FILE__:x" }])].join("").startsWith("__FILE__:")) c.violation("literal text that begins with __FILE__:", { shell: "bash" });
c.extra = { cases: cases.length, exhaustive, shells: REAL, fileCases: fileCases.length };
c.assumptions = ["PowerShell and Nushell are not installed: their scripts are not run, only their wire format is read back", "the standard zsh helpers (_files, _path_files, _describe) are replaced with stand-ins that enumerate what they document", "literal suggestions that begin with the marker of file suggestions and extensions that contain separators are not generated"];
c.finish();
