// C37: what usage lines say.  The lines the real formatter prints for random
// grammars are read by Usage.tla, token by token.
import path from "node:path";
import * as C from "@optique/core";
import { build } from "../lib/ast.ts";
import { Check } from "../lib/check.ts";
import { Gen } from "../lib/gen.ts";
import { kids, label, clear, size, plainArgs, chosen, leaves, shortest, bare, showLone } from "../lib/lines.ts";
import { profiles } from "../lib/profiles.ts";
import { Rng } from "../lib/rng.ts";
import { ndjson, tlc } from "../lib/tlc.ts";

const c = new Check("C37");
const r = new Rng(c.seed * 7477 + 37);
const n = c.thorough ? 40000 : 6000;
const prof = { ...profiles.C20, hid: 0, leaf: { opt: 30, bopt: 10, flag: 14, nflag: 3, arg: 26, const: 2, pass: 2 } };
const entries: any[] = [], meta: any[] = [];
while (entries.length < n) {
  const gr = new Rng(r.int(2 ** 31)), g0 = label(new Gen(gr, prof).grammar(), gr);
  if (!clear(g0) || size(g0) > 400) continue;
  const whole = gr.bool(0.4);
  if (whole) showLone(g0);
  let p: any;
  try { p = build(g0); } catch { continue; }
  const opts: any = {
    ...(r.bool(0.25) ? { expandCommands: true } : {}), ...(r.bool(0.25) ? { onlyShortestOptions: true } : {}),
    ...(r.bool(0.3) ? { colors: r.bool(0.7) } : {}), ...(r.bool(0.4) ? { maxWidth: r.pick([12, 24, 30, 40, 60, 80]) } : {}),
  };
  let text: string, g = g0;
  // the page of a command met below alternatives only has that command's usage
  const words: string[] = [], way: any[] = [];
  for (let x = g0, k = r.int(3); k > 0;) {
    while (["or", "lm", "map"].includes(x.t)) x = r.pick(kids(x));
    if (x.t !== "cmd" || !chosen(g0, x, words.length)) break;
    way.push(x); words.push(r.pick([x.nm, ...x.al])); k--; x = x.c;
  }
  if (words.length) g = way.reduceRight((inner, x) => ({ t: "cmd", nm: x.nm, al: x.al, c: inner ?? x.c }), undefined);
  try { text = C.formatUsage("prog", words.length || whole ? C.getDocPageSync(p, words)?.usage ?? [] : p.usage, opts); } catch (e: any) { c.violation(`crash ${JSON.stringify(opts)} ${JSON.stringify(g)}`, { grammar: g, opts, error: String(e?.stack ?? e) }); continue; }
  // the terms one by one, as they are
  const single = !words.length && !whole && gr.bool(0.3) && !leaves(g).some((x) => x.hid);
  if (single) try { delete opts.expandCommands; text = "prog" + p.usage.map((t: any) => C.formatUsageTerm(t, opts)).map((t: string) => t && " " + t).join(""); } catch (e: any) { c.violation(`crash ${JSON.stringify(opts)} ${JSON.stringify(g)}`, { grammar: g, opts, error: String(e?.stack ?? e) }); continue; }
  const short = !!opts.onlyShortestOptions, all = leaves(g), takes: any[] = [], discs = new Map(all.filter((x) => x.t === "cond").map((x) => [x.d, x.bks]));
  for (const x of all) if (x.t === "opt") {
    const vals = [...(short ? [] : [x.vp.mv]), ...(discs.get(x) ?? [])];
    if (vals.length) takes.push([short ? shortest(x.ns) : x.ns.join("/"), vals]);
  }
  // a name may be continued on the next line at the separator
  const plain = bare(text), lines = plain.split("\n");
  const toks = plain.replace(/\/\n(?=[-+/])/g, "/").replace(/\n\/(?=[-+/])/g, "/").split("\n").flatMap((l, i) => {
    const ws = l.replace(/\[\.\.\.\]/g, " @pass ").replace(/\.\.\./g, " ... ").replace(/[[\]()|]/g, " $& ").split(" ").filter((w) => w !== "").map((w) => w === "@pass" ? "[...]" : w);
    return ws[0] === "prog" ? [...(i > 0 ? ["NL"] : []), ...ws.slice(1)] : i === 0 ? ["no program name"] : ws;
  });
  entries.push({ man: false, tree: g, short, takes, args: all.filter((x) => x.t === "arg").map((x) => x.vp.mv), toks });
  meta.push({ g, opts, text, words: words.length, single });
  c.traces++;
  // a line is not wider than the width when no word is
  const w = opts.maxWidth;
  if (single) continue;
  if (w && lines.some((l) => l.length > w && l.trim().split(" ").length > 1 && plain.split(/\s/).every((t) => t.length + 5 <= w)))
    c.violation(`width ${JSON.stringify(opts)} ${JSON.stringify(g)}`, { grammar: g, opts, text });
  // a line is only broken where the next word would not have fit
  if (lines.some((l, i) => i > 0 && !(opts.expandCommands && l.startsWith("prog ")) && (!w || lines[i - 1]!.length + 1 + l.split(" ")[0]!.length <= w)))
    c.violation(`break ${JSON.stringify(opts)} ${JSON.stringify(g)}`, { grammar: g, opts, text, what: "a line broken too early" });
  if (lines.some((l) => /^ | $|  /.test(l))) c.violation(`blanks ${JSON.stringify(opts)} ${JSON.stringify(g)}`, { grammar: g, opts, text });
  if (opts.colors !== true && plain !== text) c.violation(`colours ${JSON.stringify(opts)} ${JSON.stringify(g)}`, { grammar: g, opts, text });
}
const m = await tlc(c.scratch, "Usage", { ENTRIES: ndjson(path.join(c.scratch, "g.ndjson"), entries) }, { workers: 8 });
c.states = m.states; c.transitions = m.transitions;
const judged = new Set<number>();
for (const row of m.rows) {
  const { g, opts, text, single } = meta[row.ix - 1];
  judged.add(row.ix);
  if (!row.read || !row.bags || !row.order && !single)
    c.violation(row.bags && !plainArgs(g) ? "positional values of alternatives, commands or sequences next to other positional values" : `${!row.read ? "unreadable" : row.bags ? "order" : "meaning"} ${JSON.stringify(opts)} ${JSON.stringify(g)}`, { grammar: g, opts, text, what: !row.read ? "not in the notation" : row.bags ? "positional values in another order than they are read" : "allows other command lines than the grammar", example: row.ex });
  else c.sample({ text, allows: row.size }, 6);
}
if (judged.size !== entries.length) throw new Error(`judged ${judged.size} of ${entries.length}`);
c.extra.pages = meta.filter((x) => x.words).length; c.extra.readable = judged.size;
c.finish();
