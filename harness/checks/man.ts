// C39: manual pages.  The lines of real pages are read by Roff.tla.
import path from "node:path";
import * as C from "@optique/core";
import * as M from "@optique/man";
import { build } from "../lib/ast.ts";
import { Check } from "../lib/check.ts";
import { Gen } from "../lib/gen.ts";
import { clear, label, leaves, showLone, size } from "../lib/lines.ts";
import { profiles } from "../lib/profiles.ts";
import { Rng } from "../lib/rng.ts";
import { ndjson, tlc } from "../lib/tlc.ts";

const c = new Check("C39");
const r = new Rng(c.seed * 5147 + 39);
const N = c.thorough ? 12000 : 1500;
let serial = 0;
const word = () => r.pick(["a", "the", "file", ".TH", ".x", "'br", "'", "\\fB", "a\\b", "\\", "x-y", "-", "\"q\"", "e.g.", "...", "\\-", "\\&", "it's", "[x]", "(y)", "C:\\dir", "\\(rs", "50%", ".", "\\\\"]) + (r.bool(0.4) ? (serial++).toString(36) : "");
const text = (n: number): string => { let s = word(); for (let i = 1; i < n; i++) s += r.weighted({ " ": 8, "  ": 1, "\n": 2, "\n\n": 1, "\n\n\n": 0.3 }) + word(); return s; };
type T = { k: string; ws: string[] };
const term = (): T => {
  const k = r.weighted({ text: 8, value: 3, values: 1, optionName: 2, optionNames: 1, metavar: 1, envVar: 1, commandLine: 1, url: 1 }) as string;
  switch (k) {
    case "text": return { k, ws: [text(r.range(1, r.bool(0.2) ? 12 : 4))] };
    case "value": return { k, ws: [r.bool(0.8) ? word() : word() + " " + word()] };
    case "values": return { k, ws: Array.from({ length: r.range(1, 3) }, word) };
    case "optionName": return { k, ws: ["--opt-" + serial++] };
    case "optionNames": return { k, ws: Array.from({ length: r.range(1, 3) }, () => "--x-" + serial++) };
    case "commandLine": return { k, ws: ["prog --run " + word()] };
    case "url": return { k, ws: ["http://h-t/" + serial++] };
    default: return { k, ws: [(r.bool(0.2) ? "." : "") + "V-" + serial++] };
  }
};
const msg = (p = 1): T[] => {
  if (!r.bool(p)) return [];
  const out: T[] = [];
  for (let i = r.range(1, 4); i > 0; i--) { const t = term(); if (out.length && t.k === "text" && r.bool()) t.ws[0] = " " + t.ws[0]; out.push(t); if (i > 1 && r.bool(0.15)) out.push({ k: "break", ws: [] }); }
  return out;
};
const message = (ts: T[]): any[] => ts.map(({ k, ws }) => k === "text" ? C.text(ws[0]!) : k === "value" ? C.value(ws[0]!) : k === "values" ? C.values(ws) : k === "optionName" ? C.optionName(ws[0]!) : k === "optionNames" ? C.optionNames(ws)
  : k === "metavar" ? C.metavar(ws[0] as any) : k === "envVar" ? C.envVar(ws[0]!) : k === "commandLine" ? C.commandLine(ws[0]!) : k === "url" ? C.link(ws[0]!) : C.lineBreak());
const item = (): any => ({ t: r.pick(["option", "option", "argument", "command"]), ns: Array.from({ length: r.range(1, 3) }, () => r.pick(["-", "--", "--a-b", "/"]) + "n" + serial++), mv: "", nm: "c-" + serial++, hid: r.weighted({ "": 9, all: 1, doc: 1, help: 1, usage: 1 }) });
const named = (x: any) => { if (x.t === "argument" || r.bool()) x.mv = r.pick(["M", ".M", "'M", "A-B", "A\\B"]) + serial++; return x; };
const entry = () => ({ ...named(item()), desc: msg(0.75), default: r.bool(0.3) ? [term()] : [], choices: r.bool(0.25) ? [{ k: "values", ws: Array.from({ length: r.range(1, 4) }, word) }] : [] });
const section = (title: string) => ({ title, entries: Array.from({ length: r.range(0, 3) }, entry) });
const title = () => r.bool(0.6) ? r.pick(["Files", "x-y", "\"Q\" & A", ".dots", "Back\\slash", "Two words"]) : "";
const hid = (h: string): any => h === "" ? {} : { hidden: h === "all" ? true : h };
const real = (e: any): any => e.t === "option" ? { type: "option", names: e.ns, ...(e.mv ? { metavar: e.mv } : {}), ...hid(e.hid) } : e.t === "argument" ? { type: "argument", metavar: e.mv, ...hid(e.hid) } : { type: "command", name: e.nm, ...hid(e.hid) };
const opt = (ts: T[]) => ts.length ? message(ts) : undefined;
const realSection = (s: any): any => ({ ...(s.title ? { title: s.title } : {}), entries: s.entries.map((e: any) => ({ term: real(e), description: opt(e.desc), default: opt(e.default), choices: opt(e.choices) })) });
const wrap = (t: any, w: string): any => w === "opt" ? { type: "optional", terms: [t] } : w === "many" ? { type: "multiple", terms: [t], min: 0 } : w === "some" ? { type: "multiple", terms: [t], min: 1 } : t;
const list: any[] = [];
for (let i = 0; i < N; i++) {
  const P = { brief: msg(0.4), hasusage: r.bool(0.7), usage: Array.from({ length: r.range(0, 3) }, () => { const u = named(item()); u.wrap = r.weighted({ "": 3, opt: 1, many: 1, some: 1 }); return u; }),
    description: msg(0.4), sections: Array.from({ length: r.range(0, 3) }, () => section(title())), examples: msg(0.2), bugs: msg(0.2), author: msg(0.2), footer: msg(0.3) };
  const O = { name: r.pick(["prog", "my-prog", ".dot", "a-b-c", "'q"]), section: r.range(1, 8), date: r.pick(["", "", "May 2026", "2026-01-02", "\"x\""]), version: r.pick(["", "", "1.2.3", "2.0-rc\\1"]), manual: r.pick(["", "", "User Commands", "The \"manual\"", "a\\b"]),
    brief: msg(0.15), description: msg(0.15), examples: msg(0.1), bugs: msg(0.1), author: msg(0.1), footer: msg(0.1), see: Array.from({ length: r.pick([0, 0, 1, 2, 3]) }, () => ({ name: r.pick(["git-log", "ls", "a\"b"]) + serial++, section: r.range(1, 8) })),
    extra: [] as any[] };
  const given: any = {};
  for (const [key, t] of [["environment", "ENVIRONMENT"], ["files", "FILES"], ["exitStatus", "EXIT STATUS"]] as const) if (r.bool(0.2)) { const s = section(t); O.extra.push(s); given[key] = { entries: realSection(s).entries }; }
  const page: any = { brief: opt(P.brief), description: opt(P.description), examples: opt(P.examples), bugs: opt(P.bugs), author: opt(P.author), footer: opt(P.footer), sections: P.sections.map(realSection), ...(P.hasusage ? { usage: P.usage.map((u) => wrap(real(u), u.wrap)) } : {}) };
  const options: any = { name: O.name, section: O.section, ...given };
  for (const k of ["date", "version", "manual"] as const) if (O[k] !== "" || r.bool(0.2)) options[k] = O[k];
  for (const k of ["brief", "description", "examples", "bugs", "author", "footer"] as const) if (O[k].length) options[k] = message(O[k]);
  if (O.see.length || r.bool(0.1)) options.seeAlso = O.see;
  const before = JSON.stringify([page, options]);
  c.traces++;
  try {
    const text = M.formatDocPageAsMan(page, options);
    if (JSON.stringify([page, options]) !== before) c.violation(`changed ${c.seed}:${i}`, { page, options });
    list.push({ page: P, o: O, lines: text.split("\n") });
  } catch (e: any) { c.violation(`crash ${c.seed}:${i}`, { page, options, error: String(e?.stack ?? e) }); }
}
const m = await tlc(c.scratch, "Roff", { ENTRIES: ndjson(path.join(c.scratch, "m.ndjson"), list) }, { workers: 8 });
c.states = m.states; c.transitions = m.transitions;
let n = 0;
for (const row of m.rows) {
  const x = list[row.ix - 1]; n++;
  c.evaluations++;
  if (!row.ok) c.violation(`page ${c.seed}:${row.ix}`, { page: x.page, options: x.o, text: x.lines.join("\n"), want: row.want, got: row.got });
  else c.sample({ text: x.lines.join("\n"), pieces: row.n }, 3);
}
if (n !== list.length) throw new Error(`judged ${n} of ${list.length}`);

// ---- the synopsis of real grammars, read as in C37 ----
const prof = { ...profiles.C20, hid: 0, leaf: { opt: 30, bopt: 10, flag: 14, nflag: 3, arg: 26, const: 2, pass: 2 } };
const K = c.thorough ? 20000 : 2500, entries: any[] = [], meta: any[] = [];
while (entries.length < K) {
  const gr = new Rng(r.int(2 ** 31)), g = label(new Gen(gr, prof).grammar(), gr);
  showLone(g);
  if (!clear(g) || size(g, true) > 400 || leaves(g).some((x) => x.t === "cond")) continue;
  let p: any;
  try { p = build(g); } catch { continue; }
  c.traces++;
  try {
    const text = r.bool() ? M.generateManPageSync(p, { name: "prog", section: 1 }) : await M.generateManPageAsync(p, { name: "prog", section: 1 });
    const lines = text.split("\n"), at = lines.indexOf(".SH SYNOPSIS");
    const end = lines.findIndex((l, i) => i > at && l.startsWith(".SH")), body = at < 0 ? [] : lines.slice(at + 1, end < 0 ? undefined : end);
    let line = body.slice(1).join(" ").replace(/\\f[BIR]/g, "").replace(/\\-/g, "-").replace(/\\&/g, "");
    if (at >= 0 && (body[0] !== ".B prog" && body[0] !== '.B "prog"' || body.length > 2)) c.violation(`synopsis ${JSON.stringify(g)}`, { grammar: g, text });
    const all = leaves(g);
    for (const x of all) { const ns = x.ns ?? (x.pos && [...x.pos, ...x.neg]); if (ns?.length > 1) line = line.replaceAll(ns.join(" | "), ns.join("/")); }
    const toks = line.replace(/\[\.\.\.\]/g, " @pass ").replace(/\.\.\./g, " ... ").replace(/[[\]()|]/g, " $& ").split(" ").filter((w) => w !== "").map((w) => w === "@pass" ? "[...]" : w);
    entries.push({ man: true, tree: g, short: false, takes: all.filter((x) => x.t === "opt").map((x) => [x.ns.join("/"), [x.vp.mv]]), args: [], toks });
    meta.push({ g, text: body.join("\n") });
  } catch (e: any) { c.violation(`crash ${JSON.stringify(g)}`, { grammar: g, error: String(e?.stack ?? e) }); }
}
const u = await tlc(c.scratch, "Usage", { ENTRIES: ndjson(path.join(c.scratch, "g.ndjson"), entries) }, { workers: 8 });
c.states += u.states; c.transitions += u.transitions;
const judged = new Set<number>();
for (const row of u.rows) {
  judged.add(row.ix); c.evaluations++;
  const { g, text } = meta[row.ix - 1];
  if (!row.read || !row.bags) c.violation(`synopsis ${JSON.stringify(g)}`, { grammar: g, text, what: row.read ? "allows other command lines than the grammar" : "not in the notation", example: row.ex });
}
if (judged.size !== entries.length) throw new Error(`judged ${judged.size} of ${entries.length}`);

// ---- what is no manual page is refused ----
const refused = (what: string, f: () => any) => { c.evaluations++; try { f(); c.violation(`accepted ${what}`, { what }); } catch (e: any) { if (!(e instanceof RangeError || e instanceof TypeError)) c.violation(`crash ${what}`, { what, error: String(e) }); } };
for (const s of [0, 9, -1, 1.5, 8.5, 0.5, NaN, Infinity, "1", null, undefined, 1n, {}] as any[]) {
  refused(`section ${String(s)}`, () => M.formatDocPageAsMan({ sections: [] }, { name: "p", section: s }));
  refused(`reference to section ${String(s)}`, () => M.formatDocPageAsMan({ sections: [] }, { name: "p", section: 1, seeAlso: [{ name: "q", section: 2 }, { name: "x", section: s }] }));
}
refused("an invalid date", () => M.formatDocPageAsMan({ sections: [] }, { name: "p", section: 1, date: new Date("x") }));
const months = "January February March April May June July August September October November December".split(" ");
for (let i = 0; i < 40; i++) {
  const y = r.range(1971, 2090), mo = r.int(12), want = `${months[mo]} ${y}`, d = new Date(y, mo, r.range(1, 28), r.int(24));
  c.evaluations++;
  const got = M.formatDocPageAsMan({ sections: [] }, { name: "p", section: 1, date: d }).split("\n").find((l) => l.startsWith(".TH"));
  if (!got?.includes(`"${want}"`)) c.violation(`date ${d.toISOString()}`, { want, got });
}
c.finish();
