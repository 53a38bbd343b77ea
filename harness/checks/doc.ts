// C36: printing help pages and messages.  Pages are printed by Doc.tla as a
// sequence of pieces, and by formatDocPage() in many layouts; the pieces have
// to be the same, in order, whatever the layout.
import path from "node:path";
import * as C from "@optique/core";
import { Check } from "../lib/check.ts";
import { Rng } from "../lib/rng.ts";
import { ndjson, tlc } from "../lib/tlc.ts";

const c = new Check("C36");
const r = new Rng(c.seed * 4099 + 36);
const N = c.thorough ? 12000 : 1600;
// words are numbered for the model; what they stand for
const words: string[] = [];
const put = (w: string) => { words.push(w); return "w" + (words.length - 1); };
const real = (id: string) => /^w\d+$/.test(id) ? words[Number(id.slice(1))]! : id;
const width = (t: string) => [...t].reduce((a, ch) => a + (/[\u1100-\u115f\u2e80-\ua4cf\uac00-\ud7a3\uff00-\uff60\u{1f300}-\u{1faff}]/u.test(ch) ? 2 : 1), 0);
let serial = 0;
const word = () => r.pick(["a", "to", "the", "file", "name", "日本", "한글", "é", "x-y", "«q»", "e.g.", "50%", "$HOME", "a\\b", "[x]", "(y)", "🎉"]) + (r.bool(0.7) ? (serial++).toString(36) : "");
type T = { k: string; ws: string[]; set?: (real: (id: string) => string) => any[]; skip?: number };
const term = (): T => {
  const k = r.weighted({ text: 8, value: 3, values: 1, optionName: 2, optionNames: 1, metavar: 1, envVar: 1, commandLine: 1, url: 1 }) as string;
  switch (k) {
    case "text": return { k, ws: Array.from({ length: r.range(1, r.bool(0.2) ? 14 : 4) }, () => put(word())) };
    case "value": return { k, ws: [put(r.pick([word(), word(), "a b", 'say "x"', "tab\there", " pad"]))] };
    case "values": return { k, ws: Array.from({ length: r.range(1, 3) }, () => put(word())) };
    case "optionName": return { k, ws: [put("--" + word())] };
    case "optionNames": return { k, ws: Array.from({ length: r.range(1, 3) }, () => put("-" + word())) };
    case "commandLine": return { k, ws: [put(r.pick(["prog run", "prog"]) + (serial++ % 10))] };
    case "url": return { k, ws: [put("http://h/" + (serial++ % 1000))] };
    default: return { k, ws: [put("V" + (serial++).toString(36).toUpperCase())] };
  }
};
/** A list of values in words, as valueSet() writes it. */
function set(): T[] {
  const vs = Array.from({ length: r.range(0, 4) }, () => put(word())), type = r.pick([undefined, "conjunction", "disjunction"] as const), conj = type === "disjunction" ? "or" : "and";
  if (vs.length === 0) { const f = put(word()); return [{ k: "text", ws: [f], set: (real) => C.valueSet([], r.bool() ? real(f) : { fallback: real(f), locale: "en" }) }]; }
  const out: T[] = vs.flatMap((v, i): T[] => [...(i === 0 ? [] : i < vs.length - 1 ? [{ k: "text", ws: [put(",")] }] : [{ k: "text", ws: vs.length > 2 ? [put(","), put(conj)] : [put(conj)] }]), { k: "value", ws: [v] }]);
  const skip = out.length - 1;
  out[0] = { ...out[0]!, skip, set: (real) => C.valueSet(vs.map(real), { fallback: "none", locale: r.pick(["en", "en-US", ["en"]]), ...(type ? { type } : {}) }) };
  return out;
}
const msg = (p = 1): T[] => {
  if (!r.bool(p)) return [];
  const out: T[] = [];
  for (let i = r.range(1, 4); i > 0; i--) {
    if (r.bool(0.1)) out.push(...set()); else out.push(term());
    if (i > 1 && r.bool(0.12)) out.push({ k: "break", ws: [] });
    else if (i > 1 && r.bool(0.12) && out[out.length - 1]!.k === "text" && !out[out.length - 1]!.set) { out.push({ k: "para", ws: [] }); const t = term(); out.push(t.k === "text" ? t : { k: "text", ws: [put(word())] }); }
  }
  return out;
};
/** The real message: the words of a text with the white space between them drawn at random. */
function message(ts: T[]): any[] {
  const out: any[] = [];
  for (let i = 0; i < ts.length; i++) {
    const t = ts[i]!, ws = t.ws.map(real);
    switch (t.k) {
      case "text": {
        if (t.set) { out.push(...t.set(real)); break; }
        let s = (r.bool(0.5) && out.length && ts[i - 1]?.k !== "break" ? " " : "") + ws.reduce((a, w) => a + r.pick([" ", " ", "  ", "\n"]) + w);
        if (r.bool(0.5)) s += " ";
        while (ts[i + 1]?.k === "para") { s = s.trimEnd() + r.pick(["\n\n", "\n\n", "\n\n\n"]) + ts[i + 2]!.ws.map(real).join(" "); i += 2; }
        out.push(C.text(s)); break;
      }
      case "value":
        if (t.set) { out.push(...t.set(real)); i += t.skip!; } else out.push(C.value(ws[0]!));
        break;
      case "values": out.push(C.values(ws)); break;
      case "optionName": out.push(C.optionName(ws[0]!)); break;
      case "optionNames": out.push(C.optionNames(ws)); break;
      case "metavar": out.push(C.metavar(ws[0] as any)); break;
      case "envVar": out.push(C.envVar(ws[0]!)); break;
      case "commandLine": out.push(C.commandLine(ws[0]!)); break;
      case "url": out.push(C.link(ws[0]!)); break;
      case "break": out.push(C.lineBreak()); break;
    }
  }
  return r.bool(0.4) && !out.some((x, i) => i > 0 && x.type === "text" && out[i - 1].type === "text") ? template(out) : out;
}
/** The same message written as a template. */
function template(ts: any[]): any {
  const strings = [""], values: any[] = [];
  for (let i = 0; i < ts.length; i++) {
    const t = ts[i];
    if (t.type === "text" && r.bool(0.8)) { strings[strings.length - 1] += t.text; continue; }
    const k = t.type === "text" ? 1 : r.range(1, 3), part = ts.slice(i, i + k);
    values.push(t.type === "value" && r.bool() ? t.value : part.length > 1 || r.bool(0.3) ? part : t);
    if (Array.isArray(values.at(-1))) i += part.length - 1;
    strings.push("");
  }
  return C.message(Object.assign(strings, { raw: strings }) as any, ...values);
}
function page(): any {
  const entry = () => {
    const t = r.pick(["option", "option", "argument", "command", "passthrough"]);
    const ch: T[] = []; for (let i = r.bool(0.4) ? r.range(1, 12) : 0; i > 0; i--) { ch.push({ k: "value", ws: [put(word())] }); if (i > 1 && r.bool(0.9)) ch.push({ k: "text", ws: [","] }); }
    return { t, ns: Array.from({ length: r.range(1, 3) }, () => put(r.pick(["-", "--", "--long-"]) + (serial++).toString(36))), mv: t === "argument" || r.bool() ? put("M" + (serial++).toString(36).toUpperCase()) : "", nm: put("cmd" + serial++),
      hid: r.weighted({ "": 9, all: 1, doc: 1, help: 1, usage: 1 }), desc: msg(0.8),
      default: r.bool(0.3) ? [r.pick([() => ({ k: "value", ws: [put(word())] }), () => ({ k: "text", ws: [put(word()), put(word())] }), () => ({ k: "envVar", ws: [put("ENV" + serial++)] })])()] : [], choices: ch };
  };
  return { brief: msg(0.5), usage: r.bool(0.7) ? [put("FILE" + serial++)] : [], description: msg(0.6), examples: msg(0.3), author: msg(0.3), bugs: msg(0.3), footer: msg(0.4),
    sections: Array.from({ length: r.range(0, 4) }, (_, i) => ({ title: r.bool(0.6) ? put("Title " + serial++) : "", rank: r.range(0, 3), entries: Array.from({ length: r.range(0, 3) }, entry) })) };
}
function options(): any {
  const sd: any = r.pick([undefined, false, true, {}, { prefix: " (default: ", suffix: ")" }, { prefix: " - defaults to ", suffix: "" }, { suffix: ">" }]);
  const sc: any = r.pick([undefined, false, true, {}, { prefix: " {", suffix: "}", label: "" }, { maxItems: r.range(1, 5) }, { label: "one of: ", maxItems: Infinity }, { maxItems: 1 }]);
  const colors = r.pick([undefined, false, true]), order = r.pick(["", "", "title", "same"]);
  const ti = r.pick([undefined, 2, 0, 4]), tw = r.pick([undefined, 26, 10, 18]), su = r.pick([undefined, true, true, false]);
  const ws = (s: string) => s.trim() === "" ? [] : s.trim().split(/\s+/);
  const real: any = {}; for (const [k, v] of Object.entries({ showDefault: sd, showChoices: sc, colors, termIndent: ti, termWidth: tw, showUsage: su })) if (v !== undefined || r.bool(0.2)) real[k] = v;
  return { real, o: { name: "prog", colors: !!colors, termIndent: ti ?? 2, termWidth: tw ?? 26, showUsage: su ?? true, order,
    showDefault: !!sd, dpre: ws(sd?.prefix ?? " ["), dsuf: ws(sd?.suffix ?? "]"), showChoices: !!sc, cpre: ws(sc?.prefix ?? " ("), csuf: ws(sc?.suffix ?? ")"), clabel: ws(sc?.label ?? "choices: "), maxItems: Math.min(sc?.maxItems ?? 8, 999) } };
}
const strip = (t: string) => t.replace(/\x1b\]8;;.*?\x1b\\/g, "").replace(/\x1b\[[0-9;]*m/g, "");
/** Attributes still on at the end of some text. */
function lit(t: string): string[] {
  let on: string[] = [];
  for (const m of t.matchAll(/\x1b\[([0-9;]*)m|\x1b\]8;;(.*?)\x1b\\/g)) {
    if (m[2] !== undefined) { on = on.filter((x) => x !== "link"); if (m[2]) on.push("link"); }
    else if (m[1] === "0" || m[1] === "") on = on.filter((x) => x === "link"); else on.push(m[1]!);
  }
  return on;
}
const shown = (p: any) => { const w = real(p.w); return p.q === "v" ? JSON.stringify(w) : p.q === "t" ? "`" + w + "`" : p.q === "u" ? `<${w}>` : w; };
const PREFIX = new Set("( { [ - defaults to (default: (choices: choices: one of:".split(" "));
const SLACK = 5;
/** Finds the pieces in the text one after the other; says what is wrong, if anything. */
function follow(text: string, pieces: any[], layout: boolean, w?: number): string | null {
  let at = 0;
  for (const [k, p] of pieces.entries()) {
    const s = shown(p), from = at;
    if (s === "") continue;
    const own = s.match(/^\s*/)![0].length;
    while (at < text.length && /\s/.test(text[at]!)) at++;
    if (own && text.startsWith(s, at - own) && at - own >= from) at -= own;
    const gap = text.slice(from, at);
    if (!text.startsWith(s, at)) return `piece ${k}: ${JSON.stringify(s)} expected at ${JSON.stringify(text.slice(at, at + 40))}`;
    if (p.g && gap === "") return `no space before ${JSON.stringify(s)}`;
    const breaks = gap.split("\n").length - 1;
    if (p.nl > 0 && k > 0 && breaks < p.nl) return `${JSON.stringify(s)} has to begin a line`;
    if (layout && breaks > 2) return `empty lines before ${JSON.stringify(s)}`;
    if (layout && breaks > 1 && p.nl < 2) return `an empty line before ${JSON.stringify(s)}`;
    if (layout && w !== undefined && breaks === 1 && p.nl === 0 && !PREFIX.has(s)) {
      const room = w - width(text.slice(text.lastIndexOf("\n", from - 1) + 1, from).trimEnd()) - 1 - width(s);
      if (room >= SLACK) return `early: ${room} ${JSON.stringify(s)} would have fit on the line before`;
    }
    if (layout && breaks > 0 && p.m >= 0) {
      const margin = gap.length - gap.lastIndexOf("\n") - 1;
      // a space of the text may begin the line
      if (margin !== p.m && !(p.nl === 0 && margin === p.m + 1)) return `${JSON.stringify(s)} is indented by ${margin}, not ${p.m}`;
    }
    at += s.length;
  }
  return text.slice(at).trim() === "" ? null : `${JSON.stringify(text.slice(at, at + 60))} is left over`;
}
const list: any[] = [], opts: any[] = [];
for (let i = 0; i < N; i++) { const x = options(); list.push({ page: page(), o: x.o }); opts.push(x.real); }
const m = await tlc(c.scratch, "Doc", { ENTRIES: ndjson(path.join(c.scratch, "pages.ndjson"), list) }, { workers: 8 });
c.states = m.states; c.transitions = m.transitions;
let narrow = 0, refused = 0;
for (const row of m.rows) {
  const { page: P, o } = list[row.ix - 1], base = opts[row.ix - 1];
  const opt = (ts: T[]) => ts.length ? message(ts) : r.bool(0.3) ? [] : undefined;
  const hid = (h: string): any => h === "" ? {} : { hidden: h === "all" ? true : h };
  const doc: any = { brief: opt(P.brief), description: opt(P.description), examples: opt(P.examples), author: opt(P.author), bugs: opt(P.bugs), footer: opt(P.footer), usage: P.usage.length ? [{ type: "argument", metavar: real(P.usage[0]) }] : undefined,
    sections: P.sections.map((s: any) => ({ ...(s.title ? { title: real(s.title) } : {}), rank: s.rank, entries: s.entries.map((e: any) => ({
      term: e.t === "option" ? { type: "option", names: e.ns.map(real), ...(e.mv ? { metavar: real(e.mv) } : {}), ...hid(e.hid) } : e.t === "argument" ? { type: "argument", metavar: real(e.mv), ...hid(e.hid) } : e.t === "command" ? { type: "command", name: real(e.nm), ...hid(e.hid) } : { type: "passthrough", ...hid(e.hid) },
      description: opt(e.desc), default: opt(e.default), choices: opt(e.choices) })) })) };
  const opt0: any = { ...base, ...(o.order === "title" ? { sectionOrder: (a: any, b: any) => a.rank - b.rank } : o.order === "same" ? { sectionOrder: () => 0 } : {}) };
  const before = JSON.stringify(doc), roomy = o.termIndent + o.termWidth + 2 + 30;
  for (const w of [undefined, r.range(roomy, roomy + 30), r.range(roomy, roomy + 8), r.range(8, roomy)]) {
    c.traces++;
    let text: string;
    try { text = C.formatDocPage("prog", doc, w === undefined ? opt0 : { ...opt0, maxWidth: w }); } catch (e) {
      if (e instanceof RangeError && w !== undefined && w < roomy) { refused++; continue; }
      c.violation(`page ${c.seed}:${row.ix} at width ${w}`, { page: P, options: o, width: w, error: String((e as any)?.stack ?? e) }); continue;
    }
    const layout = w === undefined || w >= roomy, plain = strip(text);
    if (!layout) narrow++;
    let bad = follow(plain, row.out, layout, w);
    if (!bad && layout && w !== undefined) { const l = plain.split("\n").find((x) => width(x.trimEnd()) > w); if (l) bad = `a line of ${width(l)} columns: ${JSON.stringify(l)}`; }
    if (!bad && !o.colors && plain !== text) bad = "escape sequences without colors";
    if (!bad && lit(text).length) bad = `left on: ${lit(text)}`;
    if (!bad && JSON.stringify(doc) !== before) bad = "the page has changed";
    if (bad) c.violation(`page ${c.seed}:${row.ix} at width ${w}: ${bad}`, { bad, page: P, options: o, width: w, text });
    else if (layout) c.sample({ width: w, text }, 2);
  }
}
// ---- messages on their own ----
const msgs: T[][] = [];
while (msgs.length < N) { const m = msg(); if (m.length) msgs.push(m); }
const blank = { usage: [], description: [], examples: [], author: [], bugs: [], footer: [], sections: [] };
const mm = await tlc(c.scratch, "Doc", { ENTRIES: ndjson(path.join(c.scratch, "messages.ndjson"), msgs.map((brief) => ({ page: { ...blank, brief }, o: { ...options().o, colors: false } }))) }, { workers: 8 });
c.states += mm.states; c.transitions += mm.transitions;
for (const row of mm.rows) {
  const ts = msgs[row.ix - 1]!, m = message(ts), before = JSON.stringify(m), quotes = r.pick([undefined, true, false]), colors = r.pick([undefined, false, true]);
  const pieces = quotes === false ? row.out.map((p: any) => ({ ...p, q: "" })) : row.out, wide = Math.max(...pieces.map((p: any) => width(shown(p))));
  for (const w of [undefined, r.range(wide, wide + 40), r.range(1, 20)]) {
    c.traces++;
    const o: any = { ...(quotes === undefined ? {} : { quotes }), ...(colors === undefined ? {} : { colors }), ...(w === undefined ? {} : { maxWidth: w }) };
    let bad: string | null = null, text = "";
    try {
      text = C.formatMessage(m, o);
      const plain = strip(text), s = "\x1b[2m", more = C.formatMessage(m, { ...o, colors: { resetSuffix: s } }), full = C.formatMessage(m, { ...o, colors: true });
      bad = follow(plain, pieces, true, w);
      const styled = ts.reduce((a, t) => a + (["text", "break", "para"].includes(t.k) ? 0 : t.k === "optionNames" ? t.ws.length : 1), 0);
      // closing quotes and trailing spaces may come on top of a word
      if (!bad && w !== undefined && w >= wide + 4) { const l = plain.split("\n").find((x) => width(x.trimEnd()) > w); if (l) bad = `a line of ${width(l)} columns: ${JSON.stringify(l)}`; }
      if (!bad && w === undefined && plain.split("\n").length > 1 + ts.reduce((a, t) => a + (t.k === "break" ? 1 : t.k === "para" ? 2 : 0), 0)) bad = "broken without a width";
      if (!bad && colors !== true && plain !== text) bad = "escape sequences without colors";
      if (!bad && lit(text).length) bad = `left on: ${lit(text)}`;
      if (!bad && [...full.matchAll(/\x1b\[(?!0m)[0-9;]*m|\x1b\]8;;./g)].filter((x) => !x[0].endsWith("\x1b")).length < styled) bad = "a term is not highlighted";
      if (!bad && more.replaceAll(s, "") !== full) bad = "the suffix of resets changes the message";
      if (!bad && (more.match(/\x1b\[0m/g) ?? []).length !== (more.match(/\x1b\[0m\x1b\[2m/g) ?? []).length) bad = "a reset without its suffix";
      if (!bad && JSON.stringify(m) !== before) bad = "the message has changed";
    } catch (e) { bad = `crash ${(e as any)?.stack ?? e}`; }
    if (bad) c.violation(`message ${c.seed}:${row.ix} at width ${w}: ${bad}`, { what: bad.slice(0, 30), bad, message: m, options: o, text });
  }
}
c.extra = { narrow, refused };
c.finish();
