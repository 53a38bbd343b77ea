// C27: usage lines and help pages.  Every behaviour of Help.tla (random
// grammars x command paths) is rendered by the real formatters.
import path from "node:path";
import * as C from "@optique/core";
import { build } from "../lib/ast.ts";
import { Check } from "../lib/check.ts";
import { Argv, Gen } from "../lib/gen.ts";
import { profiles } from "../lib/profiles.ts";
import { Rng } from "../lib/rng.ts";
import { runSync } from "../lib/run.ts";
import { ndjson, tlc } from "../lib/tlc.ts";
import { sameOutcome } from "../lib/value.ts";

const c = new Check("C27");
const r = new Rng(c.seed * 6151 + 27);
const n = c.thorough ? 6000 : 800;
const kids = (g: any): any[] => g.t === "cond" ? [g.d, ...g.bcs, ...(g.hasdef ? [g.def] : [])] : g.cs ?? (g.c ? [g.c] : []);
/** Makes all names and metavariables distinct and marks some items hidden. */
function label(g: any, r: Rng): any {
  let k = 10; const shorts = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ".split("");
  const ren = (nm: string): string => nm.startsWith("--") ? "--n" + k++ : nm.startsWith("/") ? "/N" + k++ : nm.startsWith("+") ? "+n" + k++ : nm.length === 2 && shorts.length ? "-" + shorts.shift() : "--n" + k++;
  const hide = (x: any, p: number) => { if (r.bool(p)) x.hid = r.pick(["all", "all", "usage", "doc", "help"]); else delete x.hid; };
  const walk = (x: any) => {
    if (x.ns) x.ns = x.ns.map(ren);
    if (x.pos) { x.pos = x.pos.map(ren); x.neg = x.neg.map(ren); }
    if (x.vp) x.vp.mv = "M" + k++;
    if (x.t === "cmd") { x.nm = "c" + k++; x.al = x.al.map(() => "a" + k++); }
    if (["opt", "bopt", "flag", "nflag", "arg", "cmd"].includes(x.t)) hide(x, 0.2);
    else if (["obj", "group", "merge"].includes(x.t)) hide(x, 0.1);
    kids(x).forEach(walk);
  };
  walk(g); return g;
}
const all = (g: any): string[] => [...(g.ns ?? []), ...(g.pos ?? []), ...(g.neg ?? []), ...(g.vp?.mv ? [g.vp.mv] : []), ...(g.t === "cmd" ? [g.nm, ...g.al] : []), ...kids(g).flatMap(all)];
const esc = (s: string) => s.replace(/[-/+]/g, "\\$&");
const mentions = (text: string, s: string): boolean => new RegExp(`(?<![A-Za-z0-9-])${esc(s)}(?![A-Za-z0-9-])`).test(text);
const prof = { ...profiles.C20, hid: 0 };
const entries: any[] = [], parsers: any[] = [];
while (entries.length < n) {
  const gr = new Rng(r.int(2 ** 31)), g = label(new Gen(gr, prof).grammar(), gr);
  try { parsers.push(build(g)); } catch { continue; }
  entries.push(g);
}
const m = await tlc(c.scratch, "Help", { ENTRIES: ndjson(path.join(c.scratch, "g.ndjson"), entries) }, { workers: 8 });
c.states = m.states; c.transitions = m.transitions;
let hints = 0;
const aliases = (g: any, nm: string): string[] => [...(g.t === "cmd" && g.nm === nm ? [nm, ...g.al] : []), ...kids(g).flatMap((x) => aliases(x, nm))];
for (const row of m.rows) {
  const g = entries[row.ix - 1], p = parsers[row.ix - 1], uni = [...new Set(all(g))];
  const words = row.path.map((w: string) => r.pick(aliases(g, w)));
  const width = r.pick([undefined, undefined, 40, 60, 80, 100]), opts: any = width ? { maxWidth: width } : {};
  const judge = (what: string, text: string, want: string[], may: string[] = []) => {
    c.traces++;
    const got = uni.filter((s) => mentions(text, s)), W = new Set(want);
    const extra = got.filter((s) => !W.has(s) && !may.includes(s)), missing = want.filter((s) => !got.includes(s));
    if (extra.length || missing.length)
      c.violation(`${what} ${JSON.stringify(words)} ${JSON.stringify(g)}`, { what, grammar: g, words, width, text, extra, missing });
  };
  try {
    if (row.path.length === 0) judge("usage line", C.formatUsage("prog", p.usage, opts), row.root);
    if (row.crowded && row.path.length > 0) continue;
    const page: any = r.bool() ? C.getDocPageSync(p, words) : await C.getDocPageAsync(p, words);
    judge("usage of the page", page ? C.formatUsage("prog", page.usage ?? [], opts) : "", row.path.length ? [...row.path, ...row.own] : row.usage, [...row.usage, ...row.root]);
    judge("help page", page ? C.formatDocPage("prog", { ...page, usage: undefined }, opts) : "", row.doc, row.alldoc);
    if (row.path.length > 0) continue;
    for (let k = 0; k < (c.thorough ? 6 : 3); k++) {
      // hiding changes no outcome
      const argv = new Argv(r, prof).argv(g);
      const a = runSync(p, argv), b = runSync(build(g, { nohide: true }), argv);
      c.traces++;
      if (!sameOutcome(a, b))
        c.violation(`accept ${JSON.stringify(argv)} ${JSON.stringify(g)}`, { what: "hiding changes the outcome", grammar: g, argv, hidden: a, shown: b });
      // hints never mention what is hidden from hints
      const nm = r.pick(uni), typo = nm + r.pick(["x", "0", "_"]);
      const at = r.int(argv.length + 1), line = [...argv.slice(0, at), typo, ...argv.slice(at)];
      const e = C.parse(p, line);
      if (e.success) continue;
      c.traces++;
      const text = C.formatMessage(e.error), hint = text.split("Did you mean").slice(1).join(" ");
      hints += hint ? 1 : 0;
      const bad = row.hidden.filter((s: string) => mentions(hint, s));
      if (bad.length) c.violation(`hint ${JSON.stringify(line)} ${JSON.stringify(g)}`, { what: "hint", grammar: g, argv: line, text, extra: bad });
    }
  } catch (e: any) { c.violation(`crash ${JSON.stringify(words)} ${JSON.stringify(g)}`, { grammar: g, words, error: String(e?.stack ?? e) }); }
}
c.extra.hints = hints;
c.finish();
