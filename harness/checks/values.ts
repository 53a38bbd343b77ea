// C30: the languages of the built-in value parsers.  Values.tla reads
// arguments character by character and decides each of them; every decision
// is replayed into the real parser, and what the parser returns is formatted
// and read again.
import path from "node:path";
import { isDeepStrictEqual } from "node:util";
import * as V from "@optique/core/valueparser";
import { Check } from "../lib/check.ts";
import { Rng } from "../lib/rng.ts";
import { ndjson, tlc } from "../lib/tlc.ts";
import { colours } from "../lib/colours.ts";

const c = new Check("C30");
const r = new Rng(c.seed * 7877 + 30);
const ch = (s: string) => [...s];
const D = "0123456789", HEX = "0123456789abcdefABCDEF", LOW = "abcdefghijklmnopqrstuvwxyz";
const rep = (n: number, f: () => string) => Array.from({ length: n }, f).join("");
const dig = (n: number) => rep(n, () => r.pick([...D]));
const hex = (n: number) => rep(n, () => r.pick([...HEX]));

interface Kind { cfg: any; build: () => any; show: (v: any, cfg: any) => string; seeds: () => string; alpha: string[]; tree?: string[]; depth?: number; starts?: string[]; noRound?: boolean }
const str = (v: any) => typeof v === "string" ? v : "\u0000" + typeof v;
const sgn = (n: bigint | number) => { const t = String(n); return { neg: t.startsWith("-"), d: ch(t.replace("-", "")) }; };
const bounds = (o: any) => ({ hasMin: o.min != null, min: sgn(o.min ?? 0), hasMax: o.max != null, max: sgn(o.max ?? 0) });

const kinds: Record<string, () => Kind> = {
  string() {
    const p = r.pick(["", "digits", "has-a", "hexpair"]);
    const re: any = { digits: r.pick([/^\d+$/, /^\d+$/g, /^\d+$/y]), "has-a": r.pick([/a/, /a/g]), hexpair: r.pick([/^[0-9a-f]{2}$/, /^[0-9a-f]{2}$/g]) }[p];
    return { cfg: { k: "string", pattern: p }, build: () => V.string(re ? { pattern: re } : {}), show: str,
      seeds: () => r.pick([dig(r.range(0, 4)), "banana", "xyz", hex(2).toLowerCase(), "", " a", "--x=1"]), alpha: ["a", "1", " ", "f", "-"], tree: ["a", "1", "f", " "], depth: 3 };
  },
  choice() {
    const all = ["red", "green", "blue", "a", "A1", "b-c", "x y", "constructor", "Red2", "0", "10", "1e3", "tRue"];
    const ch0 = r.shuffle(all).slice(0, r.range(1, 6)), ci = r.bool();
    return { cfg: { k: "choice", ci, choices: ch0.map(ch) }, build: () => V.choice(ch0 as any, r.bool(0.3) && !ci ? undefined as any : { caseInsensitive: ci }), show: str,
      seeds: () => { const x = r.pick(r.bool(0.8) ? ch0 : all); return r.pick([x, x, x.toUpperCase(), x.toLowerCase(), x + " "]); }, alpha: ["a", "A", "e", "1", " "], tree: ["a", "A", "1", "0"], depth: 3 };
  },
  choiceNum() {
    const all = [0, -0, 1, 2, 10, 100, -1, -5, 1.5, 0.5, -0.25, 12345, 1e21, 1e-7, 0.001, 9007199254740991];
    const xs = r.shuffle(all).slice(0, r.range(1, 6)); const txt = (n: number) => Object.is(n, -0) ? "-0" : String(n);
    return { cfg: { k: "choiceNum", choices: xs.map((x) => ch(txt(x))) }, build: () => V.choice(xs as any), show: txt,
      seeds: () => { const x = txt(r.pick(r.bool(0.8) ? xs : all)); return r.pick([x, x, "+" + x, "0" + x, x + ".0", x + "0", x.includes(".") ? x + "00" : x + ".", "-" + x, x.replace(/^0\./, "."), x.replace(/^-/, "-0")]); },
      alpha: ["0", "1", ".", "-", "+", "5", "e", " "], tree: ["0", "1", ".", "-", "5"], depth: 4 };
  },
  biject() {
    const m: Record<string, any> = {}; const ks = r.shuffle(["on", "off", "auto", "x", "Y", "10"]).slice(0, r.range(1, 4)); const vs = r.shuffle([true, false, 7, -1, "w", 0]); ks.forEach((k, i) => m[k] = vs[i]);
    return { cfg: { k: "biject", ci: false, choices: Object.keys(m).map(ch), images: Object.values(m).map((v) => ch(JSON.stringify(v))) }, build: () => V.biject(m), show: (v) => JSON.stringify(v),
      seeds: () => r.pick([...ks, ...ks, "on", "OFF", "true", "7", "__proto__", "constructor", ""]), alpha: ["o", "n", "x", "f"], tree: ["o", "n", "f", "x"], depth: 3 };
  },
  integer() {
    const big = r.bool(0.4), o: any = {}; if (r.bool()) o.min = r.pick([-10, 0, 1, 7, 100]); if (r.bool()) o.max = r.pick([7, 100, 100000, 9]) + (o.min === 100 ? 200 : 0);
    if (big) { for (const k of ["min", "max"]) if (o[k] != null) o[k] = BigInt(o[k]) * r.pick([1n, 1n, 10n ** 20n]); if (o.min != null && o.max != null && o.min > o.max) delete o.max; }
    else if (r.bool(0.2)) { o.max = Number.MAX_SAFE_INTEGER; }
    return { cfg: { k: "integer", big, ...bounds(o) }, build: () => V.integer(big ? { type: "bigint", ...o } : o), show: (v) => typeof v !== (big ? "bigint" : "number") ? "\u0000" : v == 0 ? "0" : String(v),
      seeds: () => { const e = r.bool(0.6) && (o.min ?? o.max) != null ? BigInt(r.pick([o.min, o.max].filter((x: any) => x != null))) + BigInt(r.range(-1, 1)) : r.pick([9007199254740991n, 9007199254740992n, -9007199254740991n, -9007199254740992n, BigInt(dig(r.range(1, 18))), 0n, -7n, 12n]); return r.pick(["", "", "0", "+"]) + String(e); },
      alpha: ["0", "1", "-", "9", ".", "+", " ", "e"], tree: ["0", "1", "-", "9"], depth: 4 };
  },
  float() {
    const o: any = {}; const lim = ["-1.5", "0", "0.1", "1", "2.5", "10", "100"]; let minTxt = "0", maxTxt = "0";
    if (r.bool()) { minTxt = r.pick(lim.slice(0, 4)); o.min = Number(minTxt); } if (r.bool()) { maxTxt = r.pick(lim.slice(3)); o.max = Number(maxTxt); }
    if (r.bool(0.4)) o.allowNaN = true; if (r.bool(0.4)) o.allowInfinity = true;
    return { cfg: { k: "float", nan: !!o.allowNaN, inf: !!o.allowInfinity, hasMin: o.min != null, hasMax: o.max != null, minTxt: ch(minTxt), maxTxt: ch(maxTxt) }, build: () => V.float(o), show: (v) => String(v === 0 ? 0 : v),
      seeds: () => r.pick([r.pick(lim), "NaN", "nan", "Infinity", "-infinity", "+Infinity", "1e1", "1.5E-1", "+.5", "5.", ".", "1e", "1_0", "0x1", `${dig(2)}.${dig(2)}`, `-${dig(1)}.${dig(3)}e-2`, "1e10", "00.10"]), alpha: ["0", "1", ".", "-", "+", "e", "E", "5", " ", "n"], tree: ["1", ".", "-", "e", "0"], depth: 5 };
  },
  fileSize() {
    const o: any = {}; if (r.bool(0.4)) o.type = "bigint"; if (r.bool(0.4)) o.defaultUnit = r.pick(["B", "KB", "MiB", "EB", "GiB", "MB"]); if (r.bool(0.3)) o.siAsBinary = true; if (r.bool(0.4)) o.allowNegative = true;
    const us = ["B", "KB", "MB", "GB", "TB", "PB", "EB", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB", "k", "M", "iB", "Ki", "constructor", "toString", "valueOf", ""];
    return { cfg: { k: "fileSize", big: o.type === "bigint", unit: ch(o.defaultUnit ?? ""), bin: !!o.siAsBinary, neg: !!o.allowNegative }, build: () => V.fileSize(o), show: (v) => typeof v === (o.type ?? "number") ? (v == 0 ? "0" : String(v)) : "\u0000",
      seeds: () => r.bool(0.1) ? `${BigInt(Math.round(Number(`${dig(1)}.${dig(2)}`) * r.pick([2 ** 50, 2 ** 40, 1e15, 1e12, 2 ** 20, 1e6])))}${r.pick(["B", ""])}` : r.pick(["", "", "", "-", "+"]) + r.pick([dig(1), dig(2), dig(3), `${dig(1)}.${dig(1)}`, `${dig(1)}.${dig(2)}`, `.${dig(1)}`, `${dig(1)}.`, "1.5", "0.5", "7.99", "9.007199254740991", "1024", "8", "999", "1000.00"]) + r.pick(["", "", " "]) + r.pick(us.flatMap((u) => [u, u.toLowerCase()])),
      alpha: ["1", "0", ".", "K", "i", "B", "m", " ", "-"], tree: ["1", ".", "5", "K", "iB", "B"], depth: 4 };
  },
  color() {
    const formats = serial < 4 ? [["hex", "rgb", "hsl", "named"][serial]] : r.bool(0.4) ? ["hex", "rgb", "hsl", "named"] : r.shuffle(["hex", "rgb", "hsl", "named"]).slice(0, r.range(1, 3));
    return { cfg: { k: "color", formats, names: formats.includes("named") ? Object.entries(colours).map(([n, x]) => ({ n: ch(n), c: ch(x.join(",")) })) : [] }, build: () => V.color(formats.length === 4 && r.bool() ? {} : { formats: formats as any }),
      show: (v) => [v.r, v.g, v.b, v.a * 255].map((x) => Math.abs(x - Math.round(x)) < 1e-9 ? Math.round(x) : x).join(","),
      seeds: () => { const n = () => String(r.pick([0, 1, 51, 127, 128, 254, 255, 256, r.int(256)])), a = () => r.pick(["0", "1", "0.5", ".25", "1.0", "1.1", "0."]), p = () => r.pick(["0%", "100%", "50%", "20%", "101%", "12.5%", "33"]), h = () => r.pick(["0", "60", "120", "-60", "360", "420", "13", "240.5", "-0", "300"]), s = r.pick(["", " "]);
        return r.pick([() => "#" + hex(r.pick([3, 4, 6, 8, 5, 2, 7])), () => `rgb(${n()},${s}${n()}, ${n()})`, () => `rgba(${n()}, ${n()},${n()},${a()})`, () => `rgb(${n()}, ${n()}, ${n()}, ${a()})`, () => `RGB(${n()},${n()},${n()})`,
          () => `hsl(${h()},${s}${p()}, ${p()})`, () => `hsl(${h()}, 100%, 50%)`, () => `hsla(${h()}, ${p()}, ${p()},${a()})`, () => r.pick(Object.keys(colours)), () => r.pick(Object.keys(colours)).toUpperCase(), () => r.pick(["constructor", "redd", "", "#", "transparent", "rebeccapurple", "currentcolor"])])(); },
      alpha: ["0", "f", "#", ",", " ", "%", "(", "1", ".", "-"], tree: ["#", "f", "0", "A"], depth: 5 };
  },
  uuid() {
    const o: any = {}; if (r.bool(0.4)) o.strict = r.bool(); if (r.bool(0.5)) o.allowedVersions = r.pick([[4], [1, 4], [7, 8], [4, 4, 5], []]);
    const mk = () => `${hex(8)}-${hex(4)}-${r.pick([..."0123456789aF"])}${hex(3)}-${r.pick([..."89abABc7f0"])}${hex(3)}-${hex(12)}`;
    return { cfg: { k: "uuid", strict: o.strict !== false, versions: o.allowedVersions ?? [] }, build: () => V.uuid(o), show: str,
      seeds: () => r.pick([mk, mk, mk, mk, () => "00000000-0000-0000-0000-000000000000", () => "FFFFFFFF-ffff-ffff-ffff-ffffffffffff", () => "00000000-0000-0000-0000-000000000001", () => "550e8400-e29b-41d4-a716-446655440000", () => mk().replaceAll("-", ""), () => `{${mk()}}`])(), alpha: ["-", "0", "g", "f", "4", " "] };
  },
  semVer() {
    const o: any = {}; if (r.bool()) o.allowPrefix = r.bool(); if (r.bool()) o.type = r.pick(["object", "string"]);
    const id = () => r.pick(["alpha", "0", "01", "1", "rc-1", "x7", "-", "0a", "10", "00"]), num = () => r.pick(["0", "1", "2", "10", "01", "999", "9007199254740991", "9007199254740992", ""]);
    return { cfg: { k: "semVer", prefix: !!o.allowPrefix, object: o.type === "object" }, build: () => V.semVer(o), show: (v) => o.type === "object" ? `${v.major}.${v.minor}.${v.patch}${"preRelease" in v ? "-" + v.preRelease : ""}${"metadata" in v ? "+" + v.metadata : ""}` : str(v),
      seeds: () => r.pick(["", "", "", "v", "V", "="]) + r.pick([`${num()}.${num()}.${num()}`, "1.2.3", "0.0.0", "1.2", "1.2.3.4"]) + r.pick(["", () => "-" + id(), () => "-" + id() + "." + id(), "-", "-a."].map((x: any) => typeof x === "string" ? x : x())) + r.pick(["", () => "+" + id(), () => "+" + id() + "." + id(), "+", "+b+c"].map((x: any) => typeof x === "string" ? x : x())),
      alpha: [".", "-", "+", "0", "1", "a", "v"], tree: [".", "-", "0", "1", "+", "a"], depth: 3, starts: ["1.0.0", "0.1", "v1.0.", ""] };
  },
  port() { return portKind(); },
  portRange() {
    const p = portKind(), sep = r.pick(["-", "-", ":", "..", " to ", ","]), single = r.bool(); const { k: _k, ...b } = p.cfg;
    const o: any = { ...(p as any).o, ...(sep === "-" && r.bool() ? {} : { separator: sep }), ...(single ? { allowSingle: true } : {}) };
    return { cfg: { k: "portRange", ...b, sep: ch(sep), single }, build: () => V.portRange(o), show: (v) => `${v.start}~${v.end}` + (typeof v.start === (o.type ?? "number") ? "" : "\u0000"),
      seeds: () => r.pick([() => p.seeds() + sep + p.seeds(), () => p.seeds() + sep + p.seeds(), () => { const [a, z] = [r.range(1, 65535), r.range(1, 65535)].sort((x, y) => x - y); return `${a}${sep}${z}`; }, () => p.seeds(), () => sep, () => p.seeds() + sep, () => `8000${sep}8000`])(), alpha: ["0", "1", "8", "-", ":", " "], tree: ["1", "8", "0", "-", ":"], depth: 4 };
  },
  ipv4() { const [o, cfg] = v4(); return { cfg: { k: "ipv4", ...cfg }, build: () => V.ipv4(o), show: str, seeds: quad, alpha: [".", "0", "1", "2", "5", " "], tree: ["1", "0", ".", "255"], depth: 4, starts: ["", "10.0.", "127.0.0", "1.1.1."] }; },
  ipv6() { const [o, cfg] = v6(); return { cfg: { k: "ipv6", ...cfg }, build: () => V.ipv6(o), show: str, seeds: six, alpha: [":", "::", "0", "f", "1.2.3.4", "F"], tree: [":", "::", "0", "1", "1.2.3.4"], depth: 4, starts: ["", "0:0:0:0:0", "1:2:3:4:5:6", "::ffff:"] }; },
  ip() { const [cfg, o] = ipc(); return { cfg: { k: "ip", ...cfg }, build: () => V.ip(o), show: str, seeds: () => r.bool() ? quad() : six(), alpha: [":", "0", ".", "f", "1"], tree: [":", "::", "0", "10.0.0.1", "ffff"], depth: 3, starts: ["", "::ffff:", "::"] }; },
  cidr() {
    const [cfg, o] = ipc(); let minP = -1, maxP = -1; const top = cfg.version === 4 ? 32 : 128;
    if (r.bool(0.4)) minP = r.pick([0, 8, 24, 32, 64].filter((x) => x <= top)); if (r.bool(0.4)) maxP = r.pick([8, 24, 32, 33, 64, 128].filter((x) => x <= top && x >= minP));
    const oo: any = { ...o, ...(minP >= 0 ? { minPrefix: minP } : {}), ...(maxP >= 0 ? { maxPrefix: maxP } : {}) };
    return { cfg: { k: "cidr", ...cfg, minP, maxP }, build: () => V.cidr(oo), show: (v) => `${v.address}/${v.prefix}` + (v.version === (v.address.includes(":") ? 6 : 4) ? "" : "\u0000"),
      seeds: () => (r.bool() ? quad() : six()) + r.pick(["", "/"]) .concat("") + r.pick(["/0", "/8", "/24", "/32", "/33", "/64", "/128", "/129", "/", "/08", "/-1", "/1e1", "/+8", "", "24"]), alpha: ["/", "0", "1", "3", "2", ":", "."], tree: ["/", "0", "1", "2", "3"], depth: 3, starts: ["10.0.0.1", "::1", "1.2.3.4/"] };
  },
  hostname() { const [o, cfg] = hn(); return { cfg: { k: "hostname", ...cfg }, build: () => V.hostname(o), show: str, seeds: host, alpha: [".", "-", "a", "1", "_", "*", "A"], tree: ["a", "1", ".", "-", "_", "*"], depth: 4 }; },
  domain() {
    const o: any = {}; if (r.bool(0.4)) o.minLabels = r.pick([1, 2, 3]); if (r.bool(0.4) && (o.minLabels ?? 2) <= 2) o.allowSubdomains = false; if (r.bool(0.4)) o.allowedTlds = r.pick([["com"], ["com", "org"], ["IO"]]); if (r.bool(0.3)) o.maxLength = r.pick([5, 10, 30]); if (r.bool(0.4)) o.lowercase = true;
    return { cfg: { k: "domain", minLabels: o.minLabels ?? 2, sub: o.allowSubdomains !== false, tlds: (o.allowedTlds ?? []).map(ch), max: o.maxLength ?? 253, lower: !!o.lowercase }, build: () => V.domain(o), show: str,
      seeds: () => r.pick([host, host, () => host() + ".com", () => "a.io", () => "Example.COM", () => "x.y.org", () => "1.2", () => "com"])(), alpha: [".", "-", "a", "1", "C", "_"], tree: ["a", "1", ".", "-", ".com"], depth: 4 };
  },
  mac() {
    const o: any = {}; if (r.bool(0.6)) o.separator = r.pick([":", "-", ".", "none", "any"]); if (r.bool(0.5)) o.case = r.pick(["preserve", "upper", "lower"]); if (r.bool(0.4)) o.outputSeparator = r.pick([":", "-", ".", "none"]);
    const mk = () => { const s = r.pick([":", "-", ".", "", ":", "-"]); return s === "." ? [hex(4), hex(4), hex(4)].join(".") : s === "" ? hex(12) : Array.from({ length: r.pick([6, 6, 6, 6, 5, 7]) }, () => hex(r.pick([2, 2, 2, 1, 3].slice(0, r.range(1, 5))))).join(s); };
    return { cfg: { k: "mac", sep: o.separator ?? "any", case: o.case ?? "preserve", out: o.outputSeparator ?? "" }, build: () => V.macAddress(o), show: str, seeds: mk, alpha: [":", "-", ".", "a", "0", "g"], noRound: false };
  },
  email() {
    const o: any = {}; if (r.bool(0.4)) o.allowMultiple = true; if (r.bool(0.4)) o.allowDisplayName = true; if (r.bool(0.4)) o.lowercase = true; if (r.bool(0.4)) o.allowedDomains = r.pick([["example.com"], ["x.io", "Example.com"], ["a.b.c"]]);
    const local = () => r.pick(r.bool() ? ["user", "a.b", "User+tag", '"a@b"', "x_y-z", '"a b"'] : ["user", "a.b", "User+tag", "x_y-z", ".a", "a.", "a..b", "", '"user name"', '"a@b"', '"a,b"', '"x"', '"<q>"', "a b", "a!b", "u" + rep(r.pick([1, 62, 63, 64]), () => "x")]), dom = () => r.pick(r.bool(0.6) ? ["example.com", "Example.COM", "x.io", "a.b.c", "X.io"] : ["example.com", "Example.COM", "x.io", "a.b.c", "localhost", "1.2.3.4", "a..b", "-a.com", "a-.com", "b.com.", "", "1.2", "a_b.com"]);
    const one = () => { const a = `${local()}@${dom()}`; return r.pick([a, a, a, a, a, a, ` ${a}`, `John Doe <${a}>`, `<${a}>`, `N <${a}`, `A, B <${a}>`, a + "@", a.replace("@", "")]); };
    return { cfg: { k: "email", multi: !!o.allowMultiple, display: !!o.allowDisplayName, lower: !!o.lowercase, domains: (o.allowedDomains ?? []).map(ch) }, build: () => V.email(o), show: (v) => Array.isArray(v) ? o.allowMultiple ? v.join("\n") : "\u0000" : o.allowMultiple ? "\u0000" : str(v),
      seeds: () => r.pick([one, one, one, () => `${one()},${one()}`, () => `${one()}, ${one()}`, () => "", () => ","])(), alpha: ["@", ".", "a", ",", " ", '"', "<", ">", "-"], tree: ["a", "@", ".", "x.io", ","], depth: 4 };
  },
  socket() {
    const sep = r.pick([":", ":", ":", " ", "to", "-"]), [vc, io] = ipc(), [ho, hc] = hn(), p = portKind(true);
    const type = r.pick(["both", "both", "hostname", "ip"]); const hasDefault = r.bool(), require = r.bool(0.3);
    const o: any = { ...(sep === ":" && r.bool() ? {} : { separator: sep }), ...(hasDefault ? { defaultPort: 8080 } : {}), ...(require ? { requirePort: true } : {}), host: { type, hostname: ho, version: io.version ?? "both", ...(io.ipv4 ? { ipv4: io.ipv4 } : {}), ...(io.ipv6 ? { ipv6: io.ipv6 } : {}) }, port: (p as any).o };
    const { k: _k, ...pb } = p.cfg;
    return { cfg: { k: "socket", sep: ch(sep), hostType: type, hn: hc, ip: vc, port: pb, hasDefault, require, default: ch("8080") }, build: () => V.socketAddress(o), show: (v) => `${v.host}~${v.port}`,
      seeds: () => { const h = r.pick([host, quad, six, alt])(), q = r.pick([p.seeds(), p.seeds(), "80", "x", ""]); return r.pick([() => h + sep + q, () => h + sep + q, () => `[${six()}]:${q}`, () => `[${h}]${sep}${q}`, () => h, () => `[${six()}]`, () => six(), () => h + sep + q + sep + q, () => "toronto", () => "a-b-1" + sep + q])(); },
      alpha: [":", "[", "]", "1", "a", ".", sep], tree: ["a", ":", "1", "[", "]", "::1"], depth: 4 };
  },
  cron() {
    const o: any = {}; if (r.bool(0.3)) o.seconds = true; if (r.bool(0.3)) o.years = true; if (r.bool(0.4)) o.quartz = true;
    const fs = [...(o.seconds ? ["s"] : []), "m", "h", "d", "M", "w", ...(o.years ? ["y"] : [])];
    const num: any = { s: [0, 59, 60, 30], m: [0, 59, 60, 5], h: [0, 23, 24, 9], d: [1, 31, 0, 32, 15], M: [1, 12, 0, 13, "JAN", "dec", "Foo"], w: [0, 7, 8, 1, "SUN", "mon", "Sat", 6], y: [1970, 2099, 1969, 2100, 2026] };
    const good: any = { s: [0, 30, 59], m: [0, 15, 59], h: [0, 9, 23], d: [1, 15, 31], M: [1, 6, 12, "JAN", "dec"], w: [0, 1, 5, 6, 7, "SUN", "mon", "Sat"], y: [1970, 2026, 2099] };
    const field = (f: string) => { const g = (bad = 0.08) => String(r.pick(r.bool(bad) ? num[f] : good[f])); return r.weighted({ "*": 5, n: 5, r: 3, st: 2, l: 2, q: o.quartz ? 4 : 0.5 } as any).replace(/.*/s, (k) => k === "*" ? "*" : k === "n" ? g() : k === "r" ? `${g()}-${g()}` : k === "st" ? `${r.pick(["*", g(), `${g()}-${g()}`])}/${r.pick(["2", "5", "0", "", "x", "10"].slice(0, r.bool(0.8) ? 2 : 6))}` : k === "l" ? `${g()},${g()}-${g()},*/3` : k === "q" ? r.pick(f === "d" ? ["?", "L", "LW", "15W", "32W", "1w"] : f === "w" ? ["?", "L", "5L", "FRIL", "MON#2", "3#5", "0L", "8L", "6#6", "SUN#1"] : ["?", "L", "*"]) : ""); };
    return { cfg: { k: "cron", seconds: !!o.seconds, years: !!o.years, quartz: !!o.quartz }, build: () => V.cron(o), show: (v) => ["second", "minute", "hour", "dayOfMonth", "month", "dayOfWeek", "year"].filter((k) => k in v).map((k) => v[k]).join(" "),
      seeds: () => { const xs = fs.map(field); if (r.bool(0.06)) xs.pop(); if (r.bool(0.06)) xs.push("*"); return r.pick(["", "", "", " "]) + xs.join(r.pick([" ", " ", " ", "  ", "\t"])); }, alpha: ["*", "/", "-", ",", "1", "0", " ", "?"] };
  },
  json() {
    const root = r.pick(["", "", "", "string", "number", "boolean", "null", "object", "array"]);
    const gen = (d: number): string => r.pick([() => r.pick(["0", "-1", "1.5", "1e3", "10", "1e999", "-0.25E+2", "01", "1.", ".5", "+1"].slice(0, r.bool(0.8) ? 6 : 10)), () => r.pick(['""', '"a"', '"a\\n"', '"\\u0041"', '"\\x"', '"\\""', '"__proto__"']), () => r.pick(["true", "false", "null", "True", "nul"].slice(0, r.bool(0.8) ? 3 : 5)),
      () => d <= 0 ? "[]" : `[${Array.from({ length: r.range(0, 3) }, () => gen(d - 1)).join(r.pick([",", ", "]))}]`, () => d <= 0 ? "{}" : `{${Array.from({ length: r.range(0, 2) }, (_, i) => `${r.pick(['"a"', '"b"', '"__proto__"', `"k${i}"`])}${r.pick([":", ": "])}${gen(d - 1)}`).join(",")}}`])();
    return { cfg: { k: "json", root }, build: () => V.json(root ? { rootType: root as any } : {}), show: (v) => JSON.stringify(v), seeds: () => r.pick(["", "", " "]) + gen(2) + r.pick(["", "", " "]), alpha: ["[", "]", "{", "}", ",", ":", '"', "1", "0", "\\", " ", "-"], tree: ["[", "]", "1", ",", '"', "-"], depth: 4 };
  },
  url() {
    const o: any = {}; if (r.bool(0.5)) o.allowedProtocols = r.pick([["https:"], ["http:", "https:"], ["FTP:", "mailto:"], ["x-y:"]]);
    return { cfg: { k: "url", protocols: (o.allowedProtocols ?? []).map(ch) }, build: () => V.url(o), show: (v) => v instanceof URL ? v.protocol.replace(/:$/, "") : "\u0000",
      seeds: () => r.pick(["http", "https", "HTTPS", "ftp", "mailto", "x-y", "1a", "", "ws", "data"]) + r.pick(["://", "://", "://", ":", ":/", ""]) + r.pick(["example.com", "a.b", "localhost", "", "a", "a..b", "u@x.io"]) + r.pick(["", ":80", ":8080", ":65536", ":x", ":"]) + r.pick(["", "/", "/p/q?x=1#f", "?q", "/a%20b"]), alpha: [":", "/", "a", ".", "1"], tree: ["a", ":", "/", ".b"], depth: 4, starts: ["http", "https:", ""] };
  },
  keyValue() {
    const sub = (): Kind => r.pick([() => kinds.string!(), () => kinds.string!(), () => kinds.integer!(), () => kinds.choice!()])();
    const dk = r.bool(0.5) ? null : sub(), dv = r.bool(0.5) ? null : sub(), S: Kind = { cfg: { k: "string", pattern: "" }, build: () => V.string(), show: str, seeds: () => r.pick(["", "a", "key", "1", "a=b", "x:y"]), alpha: [] };
    const key = dk ?? S, value = dv ?? S, sep = r.pick(["=", "=", ":", "==", "->"]), split = r.pick(["first", "last"]), ek = r.bool(0.3), ev = r.bool(0.7);
    const o: any = { ...(sep === "=" && r.bool() ? {} : { separator: sep }), ...(split === "first" && r.bool() ? {} : { split }), ...(ek ? { allowEmptyKey: true } : {}), ...(ev ? (r.bool() ? { allowEmptyValue: true } : {}) : { allowEmptyValue: false }), ...(dk ? { key: dk.build() } : {}), ...(dv ? { value: dv.build() } : {}) };
    return { cfg: { k: "keyValue", sep: ch(sep), split, emptyKey: ek, emptyValue: ev, key: key.cfg, value: value.cfg }, build: () => V.keyValue(o), show: (v) => key.show(v[0], key.cfg) + "~" + value.show(v[1], value.cfg),
      seeds: () => r.pick([() => key.seeds() + sep + value.seeds(), () => key.seeds() + sep + value.seeds(), () => key.seeds() + sep, () => sep + value.seeds(), () => key.seeds(), () => key.seeds() + sep + value.seeds() + sep + value.seeds()])(), alpha: ["=", ":", "a", "1", "-", ">"], tree: ["=", "a", "1", ":"], depth: 4 };
  },
  firstOf() {
    const of = Array.from({ length: r.range(2, 4) }, () => kinds[r.pick(["integer", "choice", "ipv4", "port", "semVer", "choiceNum", "hostname", "uuid", "string", "float", "color", "url", "cidr", "biject", "fileSize"])]!());
    const ps = of.map((x) => x.build());
    return { cfg: { k: "firstOf", of: of.map((x) => x.cfg) }, build: () => r.bool(0.5) ? (V.firstOf as any)(...ps) : r.bool() ? V.firstOf(ps) : (V.firstOf as any)(...ps, { metavar: "X" }), show: null as any, seeds: () => r.pick(of).seeds(), alpha: ["1", ".", "a", "-"], tree: ["1", ".", "a", "-"], depth: 3, of, ps } as any;
  },
};
function portKind(noBig = false): Kind {
  const o: any = {}; if (r.bool(0.4)) o.min = r.pick([1, 1024, 80, 8000]); if (r.bool(0.4)) o.max = r.pick([8080, 65535, 9000]); if (r.bool(0.3)) o.disallowWellKnown = true;
  const big = !noBig && r.bool(0.3), oo: any = big ? { ...o, type: "bigint", ...(o.min != null ? { min: BigInt(o.min) } : {}), ...(o.max != null ? { max: BigInt(o.max) } : {}) } : o;
  return { o: oo, cfg: { k: "port", noWellKnown: !!o.disallowWellKnown, ...bounds({ min: o.min ?? 1, max: o.max ?? 65535 }) }, build: () => V.port(oo), show: (v: any) => typeof v === (big ? "bigint" : "number") ? String(v) : "\u0000",
    seeds: () => r.pick(["0", "1", "79", "80", "81", "1023", "1024", "1025", "8000", "8080", "8081", "9001", "65535", "65536", "-1", "080", "+80", "99999", dig(4), "8e3"]), alpha: ["0", "1", "8", "-", ".", " "], tree: ["1", "0", "6", "5"], depth: 5 } as any;
}
function v4(): [any, any] {
  const o: any = {}, cfg: any = {};
  for (const [k, n] of [["private", "allowPrivate"], ["loopback", "allowLoopback"], ["linkLocal", "allowLinkLocal"], ["multicast", "allowMulticast"], ["broadcast", "allowBroadcast"], ["zero", "allowZero"]]) { cfg[k] = true; if (r.bool(0.35)) { o[n] = r.bool(0.25); cfg[k] = o[n]; } }
  return [o, cfg];
}
function v6(): [any, any] {
  const o: any = {}, cfg: any = {};
  for (const [k, n] of [["loopback", "allowLoopback"], ["linkLocal", "allowLinkLocal"], ["unique", "allowUniqueLocal"], ["multicast", "allowMulticast"], ["zero", "allowZero"]]) { cfg[k] = true; if (r.bool(0.35)) { o[n] = r.bool(0.25); cfg[k] = o[n]; } }
  return [o, cfg];
}
function ipc(): [any, any] {
  const [a, ca] = v4(), [b, cb] = v6(), version = r.pick([4, 6, "both", "both"]);
  const o: any = version === "both" && r.bool() ? {} : { version }; if (r.bool(0.8)) o.ipv4 = a; if (r.bool(0.8)) o.ipv6 = b;
  const t = (x: any) => Object.fromEntries(Object.keys(x).map((k) => [k, true]));
  return [{ version: version === "both" ? 46 : version, v4: o.ipv4 ? ca : t(ca), v6: o.ipv6 ? cb : t(cb) }, o];
}
function hn(): [any, any] {
  const o: any = {}; if (r.bool(0.3)) o.allowWildcard = true; if (r.bool(0.3)) o.allowUnderscore = true; if (r.bool(0.3)) o.allowLocalhost = false; if (r.bool(0.3)) o.maxLength = r.pick([5, 12, 80]);
  return [o, { wildcard: !!o.allowWildcard, underscore: !!o.allowUnderscore, localhost: o.allowLocalhost !== false, max: o.maxLength ?? 253 }];
}
function quad() { const x = () => r.pick(["0", "1", "9", "10", "16", "31", "32", "127", "168", "169", "172", "192", "223", "224", "239", "240", "254", "255", "256", "01", "", "1000"].slice(0, r.bool(0.9) ? 18 : 22)); return r.pick([() => [x(), x(), x(), x()].join("."), () => r.pick(["10", "172.16", "172.31", "172.32", "192.168", "127.0", "169.254", "224.1", "239.9"]).concat(".1.2.3").split(".").slice(0, 4).join("."), () => r.pick(["255.255.255.255", "0.0.0.0", "1.2.3", "1.2.3.4.5", " 1.2.3.4", "1.2.3.4 "])])(); }
function six() {
  const g = () => r.pick(["0", "0", "1", "ffff", "FE80", "fe80", "febf", "fec0", "fc00", "fdff", "fe00", "ff02", "2001", "db8", "0001", "00", "00001", "g"].slice(0, r.bool(0.93) ? 16 : 18)), gs = (n: number) => Array.from({ length: n }, g).join(":");
  return r.pick([() => gs(8), () => gs(r.range(0, 4)) + "::" + gs(r.range(0, 4)), () => gs(r.range(0, 6)) + "::" + gs(r.range(0, 3)), () => r.pick(["::", "::1", "::ffff:", "::ffff:", "0:0:0:0:0:ffff:", "64:ff9b::", gs(6) + ":"]) + r.pick([quad(), "", ""]), () => gs(r.range(6, 9)), () => r.pick([":::", "1::2::3", ":1", "1:", "::1%eth0", "[::1]", "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1:2:3:4:5:6:7:8::"]), () => { const i = r.range(0, 7); return Array.from({ length: 8 }, (_, k) => r.bool(0.5) ? "0" : k === i ? "1" : g()).join(":"); }])();
}
function host() { const l = () => r.pick(["a", "example", "x-y", "A1", "9", "localhost", "10", "_srv", "-a", "a-", "", "a".repeat(63), "a".repeat(64), "b_c", "é"].slice(0, r.bool(0.75) ? 7 : 14)); return r.pick([() => l(), () => `${l()}.${l()}`, () => `${l()}.${l()}.com`, () => "*." + l() + ".com", () => r.pick(["localhost", "LOCALHOST", "*.localhost", "*", "*.", "*.*.a", "1.2", "1.2.3.4", "a..b", "a.", ".a", (("a".repeat(62) + ".").repeat(4)).slice(0, r.pick([252, 253, 254])) + "b", "0x7f.1", "010.1", "0x10"])])(); }
function alt() { return r.pick(["0x7f000001", "0x100000000", "0xffffffff", "0xFFFFFFFFF", "017700000001", "040000000000", "037777777777", "0177.0.0.1", "0x7f.1", "127.0x1", "08.1", "1.0x1000000", "1.0xffffff", "0x7f.0.0.256", "0x7f.0.0.255", "0xg", "0x", "1.2.0x10000", "1.2.0xffff", "256.0x1", "255.01", "09", "2130706433", "00", "0", "1.2.3.0x4.5", "0x1.a", "010.09"]); }
function mutate(s: string, alpha: string[]): string {
  const a = [...s]; let k = r.pick([0, 0, 0, 0, 0, 1, 1, 2]);
  while (k-- > 0) { const i = r.int(a.length + 1); const op = r.int(4); if (op === 0) a.splice(i, 0, ...r.pick(alpha)); else if (op === 1 && a.length) a.splice(Math.min(i, a.length - 1), 1); else if (op === 2 && a.length) a[Math.min(i, a.length - 1)] = r.pick(alpha)[0]; else if (a.length > 1) { const j = Math.min(i, a.length - 2);[a[j], a[j + 1]] = [a[j + 1], a[j]]; } }
  return a.join("");
}

const names = Object.keys(kinds), PER = c.thorough ? 60 : 24, INPUTS = c.thorough ? 200 : 110;
var serial = 0;
const made: { name: string; kind: Kind; parser: any }[] = [], cases: any[] = [];
const add = (name: string, kind: Kind, inputs: string[], alpha: string[], max: number) => {
  made.push({ name, kind, parser: kind.build() });
  cases.push({ cfg: kind.cfg, inputs: [...new Set(inputs)].map(ch), alpha: alpha.map(ch), max });
};
for (const name of names) for (let i = 0; i < PER; i++) {
  serial = i; const kind = kinds[name](), inputs = [""];
  for (let j = 0; j < INPUTS; j++) { const x = mutate(kind.seeds(), kind.alpha); if (/^[\x20-\x7e\t]*$/.test(x)) inputs.push(x); }
  add(name, kind, inputs, [], 0);
  if (kind.tree && i % 3 === 0) add(name, kind, kind.starts ?? [""], kind.tree, (kind.depth ?? 3) - (kind.starts ? 1 : 0) - (c.thorough ? 0 : kind.tree.length > 4 ? 1 : 0));
}
const m = await tlc(c.scratch, "Values", { CASES: ndjson(path.join(c.scratch, "cases.ndjson"), cases) }, { workers: 8, heap: "8g" });
c.states = m.states; c.transitions = m.transitions;

const tally: Record<string, number> = {};
const same = (want: string, got: string, name: string, input: string): boolean => {
  if (want === "?") return true;
  if (name === "color") { const a = want.split(","), b = got.split(","); return a.length === b.length && a.every((x, i) => x === "?" || x === b[i]); }
  if (name === "float") return Object.is(Number(want) + 0, Number(got) + 0);
  if (name === "json") return isDeepStrictEqual(JSON.parse(want), JSON.parse(got)) || JSON.stringify(JSON.parse(want)) === got;
  return want === got;
};
const plain = (x: any): any => x instanceof URL ? x.href : x === 0 ? 0 : Array.isArray(x) ? x.map(plain) : x && typeof x === "object" ? Object.fromEntries(Object.entries(x).map(([k, v]) => [k, plain(v)])) : x;
for (const row of m.rows) {
  const { name, kind, parser } = made[row.e - 1], input = row.s.join("");
  tally[`${name}:${row.v}`] = (tally[`${name}:${row.v}`] ?? 0) + 1;
  const at = { parser: name, cfg: kind.cfg, input };
  c.traces++;
  let res: any;
  try { res = parser.parse(input); } catch (x: any) { c.violation(`throw ${name}`, { ...at, error: String(x) }); continue; }
  if (!res || typeof res.success !== "boolean") { c.violation(`result ${name}`, at); continue; }
  if (row.v === "yes" && !res.success) { c.violation(`rejects ${name}`, { ...at, want: row.val.join(""), error: JSON.stringify(res.error).slice(0, 200) }); continue; }
  if (row.v === "no" && res.success) { c.violation(`accepts ${name}`, { ...at, got: String(JSON.stringify(plain(res.value), (_, v) => typeof v === "bigint" ? `${v}n` : v)) }); continue; }
  if (!res.success) continue;
  if (row.v === "yes") {
    let want = row.val.join(""), show = kind.show, nm = name, cfg = kind.cfg;
    if (name === "firstOf") { const i = Number(want.slice(0, want.indexOf("~"))) - 1; want = want.slice(want.indexOf("~") + 1); nm = (kind as any).of[i].cfg.k; show = (kind as any).of[i].show; cfg = (kind as any).of[i].cfg; }
    let got: string; try { got = show(res.value, cfg); } catch (x) { got = "\u0000" + x; }
    if (!same(want, got, nm, input)) { c.violation(`value ${name}`, { ...at, want, got }); continue; }
    c.sample({ ...at, cfg: undefined, value: want }, 12);
  }
  // what is returned can be written down and read again
  let f: any, back: any;
  try { f = parser.format(res.value); back = parser.parse(f); } catch (x: any) { c.violation(`format throws ${name}`, { ...at, error: String(x) }); continue; }
  if (typeof f !== "string" || !back.success) { c.violation(`format unreadable ${name}`, { ...at, text: String(f) }); continue; }
  // (when the languages of firstOf() overlap, the text may belong to an earlier constituent)
  if (name === "firstOf") { const ps: any[] = (kind as any).ps, owner = ps.findIndex((p) => p.parse(input).success); if (ps.slice(0, Math.max(owner, 0)).some((p) => p.parse(f).success)) continue; }
  if (name === "firstOf" ? String(plain(back.value)) !== String(plain(res.value)) : !isDeepStrictEqual(plain(back.value), plain(res.value)) || (typeof back.value !== typeof res.value)) c.violation(`format changes ${name}`, { ...at, text: f, back: String(back.value), value: String(res.value) });
  // a value that was read is in normal form already
  if (typeof parser.normalize === "function") { let v: any; try { v = parser.normalize(res.value); } catch (x) { v = "\u0000" + x; } if (!isDeepStrictEqual(plain(v), plain(res.value))) c.violation(`normalize changes ${name}`, { ...at, v: String(v) }); }
  // and a parser that checks values given as defaults takes it
  if (typeof parser.validate === "function") { let v: any; try { v = parser.validate(res.value); } catch (x) { v = { success: false, x: String(x) }; } if (!v.success) c.violation(`validate refuses ${name}`, { ...at, v: JSON.stringify(v).slice(0, 200) }); }
}
// enumerated choices denote themselves
for (const { name, kind, parser } of made) for (const x of (kind as any).of?.some((k: any) => k.cfg.images) ? [] : parser.choices ?? []) {
  c.traces++;
  let back: any; try { back = parser.parse(parser.format(x)); } catch (err) { back = { success: false, err: String(err) }; }
  if (!back.success || !(Object.is(back.value, x) || (name === "firstOf" && String(back.value) === String(x)))) c.violation(`choice ${name}`, { parser: name, cfg: kind.cfg, choice: Object.is(x, -0) ? "-0" : String(x), got: String(back.value) });
}
c.extra.verdicts = tally;
c.extra.configurations = made.length;
c.assumptions.push("arguments over ASCII", "numbers of at most 15 significant digits are compared with bounds of float()", "URL hosts of letters and dots", "undocumented leniencies (verdict 'any') are not judged except that they must not throw and must round-trip");
c.finish();
