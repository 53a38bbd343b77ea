// Compact constructors for grammar ASTs.
import type { Ast } from "./ast.ts";
const S = (v: string) => ({ k: "s", v });
export const o = (...ns: string[]): Ast => ({ t: "opt", ns, vp: { k: "str" } });
export const oi = (min: number, max: number, ...ns: string[]): Ast => ({ t: "opt", ns, vp: { k: "int", min, max } });
export const oc = (cs: string[], ...ns: string[]): Ast => ({ t: "opt", ns, vp: { k: "choice", cs } });
export const b = (...ns: string[]): Ast => ({ t: "bopt", ns });
export const f = (...ns: string[]): Ast => ({ t: "flag", ns });
export const nf = (pos: string[], neg: string[]): Ast => ({ t: "nflag", pos, neg });
export const a = (): Ast => ({ t: "arg", vp: { k: "str" } });
export const ai = (min: number, max: number): Ast => ({ t: "arg", vp: { k: "int", min, max } });
export const ac = (...cs: string[]): Ast => ({ t: "arg", vp: { k: "choice", cs } });
export const k = (v: string): Ast => ({ t: "const", v });
export const fail = (): Ast => ({ t: "fail" });
export const pass = (fmt: string): Ast => ({ t: "pass", fmt });
export const cmd = (nm: string, c: Ast, ...al: string[]): Ast => ({ t: "cmd", nm, al, c });
export const obj = (m: Record<string, Ast>): Ast => ({ t: "obj", ks: Object.keys(m), cs: Object.values(m) });
export const tup = (...cs: Ast[]): Ast => ({ t: "tup", cs });
export const seq = (...cs: Ast[]): Ast => ({ t: "seq", cs });
export const or = (...cs: Ast[]): Ast => ({ t: "or", cs });
export const lm = (...cs: Ast[]): Ast => ({ t: "lm", cs });
export const merge = (...cs: Ast[]): Ast => ({ t: "merge", cs });
export const concat = (...cs: Ast[]): Ast => ({ t: "concat", cs });
export const cond = (d: Ast, br: Record<string, Ast>, def?: Ast): Ast =>
  ({ t: "cond", d, bks: Object.keys(br), bcs: Object.values(br), hasdef: def != null, def: def ?? { t: "none" } });
export const opt = (c: Ast): Ast => ({ t: "optional", c });
export const dfl = (c: Ast, v: string): Ast => ({ t: "dflt", c, dv: S(v) });
export const multi = (c: Ast, min = 0, max = -1): Ast => ({ t: "multi", c, min, max });
export const ne = (c: Ast): Ast => ({ t: "nonempty", c });
export const map = (c: Ast): Ast => ({ t: "map", c });
export const grp = (c: Ast): Ast => ({ t: "group", c });
