// C38: what help pages say about each item.  Every behaviour of Pages.tla
// (random grammars x command paths) is compared with the real page.
import path from "node:path";
import * as C from "@optique/core";
import { build } from "../lib/ast.ts";
import { Check } from "../lib/check.ts";
import { Gen } from "../lib/gen.ts";
import { profiles } from "../lib/profiles.ts";
import { Rng } from "../lib/rng.ts";
import { ndjson, tlc } from "../lib/tlc.ts";

const c = new Check("C38");
const r = new Rng(c.seed * 8219 + 38);
const n = c.thorough ? 30000 : 5000;
const kids = (g: any): any[] => g.t === "cond" ? [g.d, ...g.bcs, ...(g.hasdef ? [g.def] : [])] : g.cs ?? (g.c ? [g.c] : []);
const str = (v: string) => ({ k: "s", v });
/** A default value that fits what a grammar yields. */
function fits(g: any, r: Rng): any {
  switch (g.t) {
    case "opt": case "arg": return g.vp.k === "choice" ? str(r.pick(g.vp.cs)) : g.vp.k === "int" ? { k: "i", v: String(r.range(g.vp.min, g.vp.max)) } : str("val" + r.int(90));
    case "bopt": case "flag": case "nflag": return { k: "b", v: "true" };
    case "obj": return { k: "o", f: g.ks.map((n: string, i: number) => ({ n, v: fits(g.cs[i], r) })).filter(() => r.bool(0.8)) };
    case "tup": case "seq": return { k: "a", e: g.cs.map((x: any) => fits(x, r)) };
    case "multi": return { k: "a", e: Array.from({ length: r.range(1, 2) }, () => fits(g.c, r)) };
    case "optional": case "dflt": case "group": case "nonempty": return fits(g.c, r);
    default: return str("zz");
  }
}
const leaf = (g: any): boolean => ["opt", "arg", "bopt", "flag", "nflag"].includes(g.t) || ["optional", "dflt", "map", "multi", "nonempty"].includes(g.t) && leaf(g.c);
/** Distinct names, texts and labels; some items hidden. */
function label(g: any, r: Rng): any {
  let k = 10; const shorts = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ".split(""), hideP = r.pick([0, 0.1]), labP = r.pick([0, 0.2, 0.5]);
  const ren = (nm: string): string => nm.startsWith("--") ? "--n" + k++ : nm.startsWith("/") ? "/N" + k++ : nm.startsWith("+") ? "+n" + k++ : nm.length === 2 && shorts.length ? "-" + shorts.shift() : "--n" + k++;
  const hide = (x: any, p: number) => { if (r.bool(p)) x.hid = r.pick(["all", "all", "usage", "doc", "help"]); else delete x.hid; };
  const text = (w: string, p = 0.6) => r.bool(p) ? w + k++ : "";
  const walk = (x: any) => {
    if (x.ns) x.ns = x.ns.map(ren);
    if (x.pos) { x.pos = x.pos.map(ren); x.neg = x.neg.map(ren); }
    if (x.vp) x.vp.mv = "M" + k++;
    if (x.t === "cmd") { x.nm = "c" + k++; x.al = x.al.map(() => "a" + k++); x.brief = text("brief"); x.foot = text("foot"); }
    x.desc = ["opt", "bopt", "flag", "nflag", "arg", "cmd"].includes(x.t) ? text("desc") : "";
    x.lab = ["obj", "tup", "seq", "merge"].includes(x.t) && r.bool(labP) || x.t === "group" ? (r.bool(0.1) ? "Common" : "Label" + k++) : "";
    if (["opt", "bopt", "flag", "nflag", "arg", "cmd"].includes(x.t)) hide(x, hideP);
    else if (["obj", "group", "merge"].includes(x.t)) hide(x, hideP / 2);
    kids(x).forEach(walk);
    if (x.t === "dflt") { x.dv = fits(x.c, r); x.dm = leaf(x.c) && r.bool(0.2) ? "shown" + k++ : ""; }
  };
  walk(g); return g;
}
const say = (m: any): string => (m ?? []).map((t: any) => t.text ?? t.value ?? t.values?.join(" ") ?? t.optionName ?? t.metavar ?? `<${t.type}>`).join("");
const shown = (d: any): string | undefined => d.k === "none" ? "" : d.k === "any" || !("v" in d) ? undefined : d.v;
const prof = { ...profiles.C20, hid: 0, inner: { ...profiles.C20.inner, group: 8, dflt: 14, cmd: 12 }, root: { ...profiles.C20.root, group: 4 } };
const entries: any[] = [], parsers: any[] = [];
while (entries.length < n) {
  const gr = new Rng(r.int(2 ** 31)), g = label(new Gen(gr, prof).grammar(), gr);
  try { parsers.push(build(g)); } catch { continue; }
  entries.push(g);
}
const m = await tlc(c.scratch, "Pages", { ENTRIES: ndjson(path.join(c.scratch, "g.ndjson"), entries) }, { workers: 8 });
c.states = m.states; c.transitions = m.transitions;
const aliases = (g: any, nm: string): string[] => [...(g.t === "cmd" && g.nm === nm ? [nm, ...g.al] : []), ...kids(g).flatMap((x) => aliases(x, nm))];
let pages = 0, told = 0;
for (const row of m.rows) {
  if (row.crowded && row.path.length > 0) continue;
  const g = entries[row.ix - 1], p = parsers[row.ix - 1], words = row.path.map((w: string) => r.pick(aliases(g, w)));
  const fail = (what: string, d: any) => c.violation(`${what} ${JSON.stringify(words)} ${JSON.stringify(g)}`, { what, grammar: g, words, ...d });
  try {
    const page: any = r.bool() ? C.getDocPageSync(p, words) : await C.getDocPageAsync(p, words);
    c.traces++; pages++;
    const found = new Map<string, any[]>();
    for (const s of page.sections) for (const e of s.entries) {
      const id = e.term.type === "option" ? e.term.names[0] : e.term.type === "command" ? e.term.name : e.term.metavar;
      found.set(id, [...(found.get(id) ?? []), { title: s.title ?? "", desc: say(e.description), def: say(e.default), choices: (e.choices ?? []).flatMap((t: any) => t.type === "value" ? [t.value] : t.values ?? []) }]);
    }
    for (const want of row.items) {
      const got = found.get(want.id);
      told++;
      if (got?.length !== 1) { fail("entries", { id: want.id, got: got ?? [] }); continue; }
      const e = got[0], def = shown(want.def);
      if (e.desc !== want.desc) fail("description", { id: want.id, want: want.desc, got: e });
      if (def !== undefined && e.def !== def) fail("default", { id: want.id, want: def, got: e });
      if (JSON.stringify(e.choices) !== JSON.stringify(want.choices)) fail("choices", { id: want.id, want: want.choices, got: e });
      if (row.plain && !want.titles.includes(e.title)) fail("section", { id: want.id, want: want.titles, got: e });
    }
    const titles = page.sections.map((s: any) => s.title ?? "");
    if (new Set(titles).size !== titles.length || page.sections.some((s: any) => s.entries.length === 0)) fail("sections", { titles });
    for (const a of row.about) {
      if (a.desc !== "" && say(page.description) !== a.desc) fail("description of the command", { want: a, got: say(page.description) });
      if (a.brief !== "" && say(page.brief) !== a.brief) fail("brief of the command", { want: a, got: say(page.brief) });
      if (a.foot !== "" && say(page.footer) !== a.foot) fail("footer of the command", { want: a, got: say(page.footer) });
    }
    c.sample({ words, items: row.items.slice(0, 3) }, 5);
  } catch (e: any) { fail("crash", { error: String(e?.stack ?? e) }); }
}
c.extra.pages = pages; c.extra.items = told;
c.finish();
