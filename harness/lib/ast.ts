// Grammar ASTs (shared with the TLA+ spec) and their construction from the
// real combinators.
import * as C from "@optique/core";
import type { Tagged } from "./value.ts";
import { decode } from "./value.ts";

export type VP =
  | { k: "str" }
  | { k: "choice"; cs: string[] }
  | { k: "int"; min: number; max: number };
// deno-lint-ignore no-explicit-any
export type Ast = any;

export interface BuildOpts {
  async?: boolean;             // make value parsers asynchronous
  pick?: () => boolean;         // which value parsers are asynchronous (default all)
  tick?: () => Promise<void>;  // awaited inside asynchronous value parsers
  fluent?: boolean;            // use fluent method forms
  labels?: boolean;            // add labels and descriptions
  nohide?: boolean;            // drop `hidden`
}

export function buildVP(vp: VP, o: BuildOpts): any {
  let p: any;
  switch (vp.k) {
    case "str": p = C.string(); break;
    case "choice": p = C.choice(vp.cs); break;
    case "int": p = C.integer({ min: vp.min, max: vp.max }); break;
  }
  if ((vp as any).mv) { const m = (vp as any).mv; p = Object.create(p); Object.defineProperty(p, "metavar", { value: m, enumerable: true }); }
  if (!o.async || (o.pick && !o.pick())) return p;
  const a: any = Object.create(p);
  Object.defineProperty(a, "mode", { value: "async", enumerable: true });
  a.parse = async (s: string) => { await o.tick?.(); return p.parse(s); };
  a.suggest = p.suggest == null ? undefined : async function* (prefix: string) { yield* p.suggest(prefix); };
  return a;
}

function extra(n: Ast, o: BuildOpts): any {
  const r: any = {};
  if (n.hid && !o.nohide) r.hidden = n.hid === "all" ? true : n.hid;
  if (o.labels) r.description = C.message`described`;
  if (n.desc) r.description = C.message`${C.text(n.desc)}`;
  return r;
}

export function build(n: Ast, o: BuildOpts = {}): any {
  const kids = () => n.cs.map((c: Ast) => build(c, o));
  switch (n.t) {
    case "opt": return (C.option as any)(...n.ns, buildVP(n.vp, o), extra(n, o));
    case "bopt": return (C.option as any)(...n.ns, extra(n, o));
    case "flag": return (C.flag as any)(...n.ns, extra(n, o));
    case "nflag": return C.negatableFlag({ positive: n.pos, negative: n.neg } as any, extra(n, o));
    case "arg": return C.argument(buildVP(n.vp, o), extra(n, o));
    case "pass": return C.passThrough({ format: n.fmt, ...extra(n, o) } as any);
    case "const": return C.constant(n.v);
    case "fail": return C.fail();
    case "cmd": {
      return C.command(n.nm, build(n.c, o), {
        ...(n.al.length ? { aliases: n.al } : {}),
        ...(n.brief ? { brief: C.message`${C.text(n.brief)}` } : {}), ...(n.foot ? { footer: C.message`${C.text(n.foot)}` } : {}),
        ...extra(n, o),
      } as any);
    }
    case "obj": {
      const f: any = {};
      n.ks.forEach((k: string, i: number) => { f[k] = build(n.cs[i], o); });
      const opts = n.hid && !o.nohide ? { hidden: n.hid === "all" ? true : n.hid } : undefined;
      return o.labels || n.lab ? (C.object as any)(n.lab || "Label", f, ...(opts ? [opts] : [])) : (C.object as any)(f, ...(opts ? [opts] : []));
    }
    case "tup": return o.labels || n.lab ? (C.tuple as any)(n.lab || "Label", kids()) : C.tuple(kids());
    case "seq": return o.labels || n.lab ? (C.seq as any)(n.lab || "Label", ...kids()) : (C.seq as any)(...kids());
    case "or": return (C.or as any)(...kids());
    case "lm": return (C.longestMatch as any)(...kids());
    case "merge": if (n.hid && !o.nohide) return (C.merge as any)(...(n.lab ? [n.lab] : []), ...kids(), extra(n, {}));
      return o.labels || n.lab ? (C.merge as any)(n.lab || "Label", ...kids()) : (C.merge as any)(...kids());
    case "concat": return (C.concat as any)(...kids());
    case "group": return C.group(n.lab || "Grp", build(n.c, o), n.hid && !o.nohide ? extra(n, {}) : undefined);
    case "cond": {
      const b: any = {};
      n.bks.forEach((k: string, i: number) => { b[k] = build(n.bcs[i], o); });
      return n.hasdef ? (C.conditional as any)(build(n.d, o), b, build(n.def, o)) : (C.conditional as any)(build(n.d, o), b);
    }
    case "optional": { const c = build(n.c, o); return o.fluent ? c.optional() : C.optional(c); }
    case "dflt": { const c = build(n.c, o); const d = decode(n.dv as Tagged); if (n.dm) return C.withDefault(c, d as any, { message: C.message`${C.text(n.dm)}` }); return o.fluent ? c.withDefault(d) : C.withDefault(c, d as any); }
    case "multi": {
      const c = build(n.c, o);
      const m: any = { min: n.min }; if (n.max >= 0) m.max = n.max;
      return o.fluent ? c.multiple(m) : C.multiple(c, m);
    }
    case "nonempty": { const c = build(n.c, o); return o.fluent ? c.nonEmpty() : C.nonEmpty(c); }
    case "map": { const c = build(n.c, o); const f = (x: unknown) => ["map", x]; return o.fluent ? c.map(f) : C.map(c, f); }
  }
  throw new Error("unknown node " + n.t);
}
