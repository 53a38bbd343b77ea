// Seeded random grammars and command lines.
import { Rng } from "./rng.ts";
import type { Ast, VP } from "./ast.ts";

export type W = Record<string, number>;
export interface Profile {
  root: W;            // node types at the root
  inner: W;           // node types below
  leaf: W;            // leaf types
  depth: number;
  fan?: [number, number];
  names?: W;          // long | short | slash | plus | sdl (single-dash long)
  vps?: W;            // str | choice | int
  dupNames?: number;  // probability of reusing a name already used
  hid?: number;
  emptyCmd?: number;
  mut?: W;            // mutation weights for command lines
  mutCount?: [number, number];
  spell?: W;          // sep | joined
}

export const LEAF: W = { opt: 30, bopt: 12, flag: 12, nflag: 3, arg: 14, const: 3, pass: 1 };
export const INNER: W = {
  obj: 12, tup: 5, seq: 5, or: 8, lm: 3, merge: 4, concat: 2, cond: 4, cmd: 7, group: 2,
  optional: 10, dflt: 8, multi: 9, nonempty: 2, map: 3,
};

const LETTERS = "abcdefghijklmnopqrstuvwxyz";
export class Gen {
  r: Rng; p: Profile;
  used = new Set<string>(); cmds = new Set<string>();
  optPool: string[] = []; cmdPool: string[] = [];
  vcount = 0; kcount = 0; budget = 14;
  constructor(r: Rng, p: Profile) { this.r = r; this.p = p; }

  name(kind?: string): string {
    const r = this.r;
    if (this.optPool.length && r.bool(this.p.dupNames ?? 0)) return r.pick(this.optPool);
    for (;;) {
      const k = kind ?? r.weighted(this.p.names ?? { long: 60, short: 30, slash: 4, plus: 2, sdl: 4 });
      const a = LETTERS[r.int(14)], b = LETTERS[r.int(14)];
      let n = k === "long" ? "--" + (r.bool(0.7) ? a + b : a) : k === "short" ? "-" + a : k === "slash" ? "/" + a.toUpperCase()
        : k === "plus" ? "+" + a : "-" + a + b;
      // a single-dash multi-letter name must not be readable as a bundle
      if (k === "sdl") n = "-z" + b;
      if (k === "short" && a === "z") continue;
      if (this.used.has(n)) continue;
      this.used.add(n); this.optPool.push(n); return n;
    }
  }
  names(): string[] { const k = this.r.weighted({ one: 65, two: 30, three: 5 }); const c = k === "one" ? 1 : k === "two" ? 2 : 3;
    const ns = [this.name()]; for (let i = 1; i < c; i++) { const n = this.name(i === 1 ? (this.r.bool(0.6) ? "short" : "long") : "long"); if (!ns.includes(n)) ns.push(n); } return ns; }
  cmdName(): string {
    const r = this.r;
    if (this.cmdPool.length && r.bool(this.p.dupNames ?? 0)) return r.pick(this.cmdPool);
    for (;;) { const n = r.pick(["add", "rm", "go", "ls", "run", "up", "put", "get", "mv", "cp", "fix", "log"]) + (r.bool(0.3) ? String(r.int(9)) : "");
      if (this.cmds.has(n)) continue; this.cmds.add(n); this.cmdPool.push(n); return n; }
  }
  vp(): VP {
    const k = this.r.weighted(this.p.vps ?? { str: 60, choice: 20, int: 20 });
    if (k === "str") return { k: "str" };
    if (k === "choice") return { k: "choice", cs: this.r.pick([["red", "green"], ["on", "off", "one"], ["x", "y", "xy"]]) };
    return { k: "int", min: this.r.pick([-5, 0, 1]), max: this.r.pick([3, 9, 100]) };
  }
  key(): string { return "k" + (this.kcount++); }
  hide(n: Ast): Ast { if (this.r.bool(this.p.hid ?? 0)) n.hid = this.r.pick(["all", "usage", "doc", "help"]); return n; }
  leaf(t?: string): Ast {
    this.budget--;
    t ??= this.r.weighted(this.p.leaf);
    switch (t) {
      case "opt": return this.hide({ t, ns: this.names(), vp: this.vp() });
      case "bopt": case "flag": return this.hide({ t, ns: this.names() });
      case "nflag": { const a = this.name(this.r.bool(0.7) ? "long" : "short"); let b = this.name(this.r.bool(0.7) ? "long" : "short"); if (a === b) b = this.name("long") ; if (a === b) return this.leaf("flag"); return this.hide({ t, pos: [a], neg: [b] }); }
      case "arg": return this.hide({ t, vp: this.vp() });
      case "pass": return this.hide({ t, fmt: this.r.pick(["equalsOnly", "nextToken", "greedy"]) });
      case "const": return { t, v: "c" + (this.vcount++) };
      case "fail": return { t };
    }
    throw new Error(t);
  }
  fan(): number { const [a, b] = this.p.fan ?? [1, 3]; return this.r.range(a, b); }
  node(depth: number, t?: string): Ast {
    const r = this.r;
    if (t == null) {
      if (depth <= 0 || this.budget <= 0 || r.bool(0.3)) return this.leaf();
      t = r.weighted(this.p.inner);
    }
    this.budget--;
    const many = (k: number, f = () => this.node(depth - 1)) => Array.from({ length: k }, f);
    switch (t) {
      case "leaf": return this.leaf();
      case "obj": { const k = this.fan(); return { t, ks: many(k, () => this.key()), cs: many(k) }; }
      case "tup": case "seq": return { t, cs: many(this.fan()) };
      case "or": case "lm": return { t, cs: many(Math.max(2, this.fan())) };
      case "merge": return { t, cs: many(Math.max(2, Math.min(3, this.fan())), () => this.objLike(depth - 1)) };
      case "concat": return { t, cs: many(Math.max(2, Math.min(3, this.fan())), () => ({ t: "tup", cs: many(r.range(1, 2)) })) };
      case "cmd": { const nm = this.cmdName(); const al = r.bool(0.3) ? [this.cmdName()].filter((x) => x !== nm) : []; 
        return this.hide({ t, nm, al, c: this.node(depth - 1) }); }
      case "cond": {
        const ks = r.pick([["red", "green"], ["on", "off"], ["x", "y", "xy"]]);
        const k = r.range(1, ks.length);
        const hasdef = r.bool(0.5);
        return { t, d: this.disc(ks), bks: ks.slice(0, k), bcs: many(k), hasdef, def: hasdef ? this.node(depth - 1) : { t: "none" } };
      }
      case "optional": case "nonempty": case "map": case "group": return { t, c: this.node(depth - 1) };
      case "dflt": return { t, c: this.node(depth - 1), dv: { k: "s", v: "D" + (this.vcount++) } };
      case "multi": { const min = r.pick([0, 0, 0, 1, 2]); return { t, c: this.node(depth - 1), min, max: r.pick([-1, -1, -1, 1, 2, 3].filter((m) => m < 0 || m >= min)) }; }
    }
    return this.leaf(t);
  }
  disc(ks: string[]): Ast {
    const r = this.r;
    const cs = r.bool(0.3) ? [...ks, "zz"] : ks;
    const vp: VP = r.bool(0.75) ? { k: "choice", cs } : { k: "str" };
    const opt = (): Ast => ({ t: "opt", ns: this.names(), vp });
    switch (r.weighted({ opt: 60, arg: 15, dflt: 15, const: 5, group: 5 })) {
      case "opt": return opt();
      case "arg": return { t: "arg", vp };
      case "dflt": return { t: "dflt", c: opt(), dv: { k: "s", v: r.pick([...ks, "nope"]) } };
      case "const": return { t: "const", v: r.pick(ks) };
      default: return { t: "group", c: opt() };
    }
  }
  objLike(depth: number): Ast {
    const r = this.r;
    const obj = (): Ast => { const k = this.fan(); return { t: "obj", ks: Array.from({ length: k }, () => this.key()), cs: Array.from({ length: k }, () => this.node(depth - 1)) }; };
    switch (r.weighted({ obj: 60, group: 6, or: 12, merge: 6, optional: 4, cmd: 4, lm: 4, nonempty: 2 })) {
      case "group": return { t: "group", c: obj() };
      case "or": return { t: "or", cs: [obj(), obj()] };
      case "lm": return { t: "lm", cs: [obj(), obj()] };
      case "merge": return { t: "merge", cs: [obj(), obj()] };
      case "optional": return { t: "dflt", c: obj(), dv: { k: "o", f: [{ n: this.key(), v: { k: "s", v: "D" + (this.vcount++) } }] } };
      case "cmd": return { t: "cmd", nm: this.cmdName(), al: [], c: obj() };
      case "nonempty": return { t: "nonempty", c: obj() };
      default: return obj();
    }
  }
  grammar(): Ast { this.budget = this.r.range(4, 14); return this.node(this.p.depth, this.r.weighted(this.p.root)); }
}

export class Argv {
  r: Rng; vc = 0; p: Profile;
  constructor(r: Rng, p: Profile) { this.r = r; this.p = p; }
  val(vp: VP, valid = 0.93): string {
    const r = this.r;
    if (vp.k === "str") { const w = r.u(); return w < 0.9 ? "v" + (this.vc++) : w < 0.93 ? "--" : w < 0.96 ? "-q" + (this.vc++) : w < 0.98 ? "" : "--vv" + (this.vc++); }
    if (vp.k === "choice") return r.bool(valid) ? r.pick(vp.cs) : r.pick(["bad", vp.cs[0] + "x", ""]);
    return r.bool(valid) ? String(r.range(Math.max(vp.min, -3), Math.min(vp.max, 9))) : r.pick(["zz", String(vp.min - 1), String(vp.max + 1), "1.5", ""]);
  }
  optTok(ns: string[], vp: VP): string[] {
    const n = this.r.pick(ns), v = this.val(vp);
    const joinable = n.startsWith("--") || n.startsWith("/") || (n.startsWith("-") && n.length > 2);
    if (joinable && this.r.bool(0.35)) return [n + (n.startsWith("/") ? ":" : "=") + v];
    return [n, v];
  }
  // a list of chunks; each chunk is an indivisible run of tokens
  chunks(n: Ast): string[][] {
    const r = this.r;
    const mix = (cs: Ast[]) => r.shuffle(cs.flatMap((c) => { const k = this.chunks(c); return c.t === "arg" || c.t === "opt" || c.t === "flag" || c.t === "bopt" ? k.map((x) => [x]) : r.bool(0.5) ? k.map((x) => [x]) : [k]; }))
      .flat();
    switch (n.t) {
      case "opt": return [this.optTok(n.ns, n.vp)];
      case "flag": case "bopt": return n.t === "bopt" && r.bool(0.4) ? [] : [[r.pick(n.ns as string[])]];
      case "nflag": return [[r.pick([...n.pos, ...n.neg])]];
      case "arg": return [[this.val(n.vp)]];
      case "pass": return r.bool(0.5) ? [] : [r.pick([["--zz=1"], ["--un", "w" + this.vc++], ["-u"]])];
      case "const": case "fail": return [];
      case "cmd": { const nm = r.pick([n.nm, ...n.al]); return [[nm], ...this.chunks(n.c)]; }
      case "obj": case "tup": case "merge": case "concat": return mix(n.cs);
      case "seq": return n.cs.flatMap((c: Ast) => this.chunks(c));
      case "or": case "lm": return this.chunks(r.pick(n.cs as Ast[]));
      case "cond": {
        if (n.hasdef && r.bool(0.3)) return this.chunks(n.def);
        const i = r.int(n.bks.length);
        let d = this.chunks(n.d);
        const key = n.bks[i];
        d = d.map((ch) => ch.map((t) => t)); 
        if (d.length) {
          const last = d[d.length - 1];
          const t = last[last.length - 1];
          const m = /^([^=:]+[=:])/.exec(t);
          last[last.length - 1] = last.length === 1 && m && (n.d.t !== "arg") ? m[1] + key : key;
        }
        return [...d, ...this.chunks(n.bcs[i])];
      }
      case "optional": case "dflt": return r.bool(0.45) ? [] : this.chunks(n.c);
      case "multi": { let k = r.weighted({ a: 15, b: 30, c: 35, d: 15, e: 5 }).charCodeAt(0) - 97; const out: string[][] = []; while (k-- > 0) out.push(...this.chunks(n.c)); return out; }
      default: return this.chunks(n.c);
    }
  }
  vocab(n: Ast, out: string[] = []): string[] {
    if (n == null || typeof n !== "object") return out;
    if (n.ns) out.push(...n.ns); if (n.pos) out.push(...n.pos, ...n.neg); if (n.nm) out.push(n.nm, ...n.al);
    if (n.vp?.cs) out.push(...n.vp.cs);
    for (const c of [...(n.cs ?? []), ...(n.bcs ?? []), n.c, n.d, n.def]) if (c) this.vocab(c, out);
    return out;
  }
  argv(g: Ast): string[] {
    const r = this.r;
    let ch = this.chunks(g);
    const voc = this.vocab(g);
    const [a, b] = this.p.mutCount ?? [0, 2];
    const k = r.range(a, b);
    const mut = this.p.mut ?? { none: 20, del: 12, dup: 12, swap: 14, ins: 10, dd: 8, junk: 6, bundle: 8, joinflag: 3, trunc: 5, other: 10 };
    for (let i = 0; i < k; i++) {
      const at = r.int(ch.length + 1);
      switch (r.weighted(mut)) {
        case "del": if (ch.length) ch.splice(r.int(ch.length), 1); break;
        case "dup": if (ch.length) ch.splice(at, 0, [...r.pick(ch)]); break;
        case "swap": if (ch.length > 1) { const x = r.int(ch.length), y = r.int(ch.length); [ch[x], ch[y]] = [ch[y], ch[x]]; } break;
        case "ins": if (voc.length) ch.splice(at, 0, r.bool(0.5) ? [r.pick(voc)] : [r.pick(voc), "v" + this.vc++]); break;
        case "dd": ch.splice(at, 0, ["--"]); break;
        case "junk": ch.splice(at, 0, [r.pick(["junk", "--junk", "-j", "--junk=1", "-", "", "-ab=1", "--=", "/J:1", "-1"])]); break;
        case "bundle": {
          // merge adjacent short flags into one token
          const fs = voc.filter((v) => /^-[a-z]$/.test(v));
          if (fs.length) { const m = r.range(1, 3); let s = "-"; for (let j = 0; j < m; j++) s += r.pick(fs)[1]; 
            // drop separate occurrences half of the time
            if (r.bool(0.6)) ch = ch.filter((c) => !(c.length === 1 && /^-[a-z]$/.test(c[0]) && s.includes(c[0][1])));
            ch.splice(Math.min(at, ch.length), 0, [s]); }
          break;
        }
        case "joinflag": if (voc.length) ch.splice(at, 0, [r.pick(voc) + r.pick(["=1", ":1", "="])]); break;
        case "trunc": { const flat = ch.flat(); flat.length = Math.max(0, flat.length - 1); ch = flat.map((x) => [x]); break; }
        case "other": ch.push(...this.chunks(g).slice(0, r.range(1, 2))); if (r.bool()) ch = r.shuffle(ch); break;
        case "shuffle": ch = r.shuffle(ch); break;
      }
    }
    return ch.flat().slice(0, 14);
  }
}
