// Grammars whose usage is printed, and what is known of them (C37, C39).
import type { Rng } from "./rng.ts";

export const kids = (g: any): any[] => g.t === "cond" ? [g.d, ...g.bcs, ...(g.hasdef ? [g.def] : [])] : g.cs ?? (g.c ? [g.c] : []);
/** Makes all names and metavariables distinct, varies bounds and hides some items. */
export function label(g: any, r: Rng): any {
  let k = 10; const shorts = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ".split(""), hideP = r.pick([0, 0, 0.1, 0.25]);
  const ren = (nm: string): string => nm.startsWith("--") ? "--n" + k++ : nm.startsWith("/") ? "/N" + k++ : nm.startsWith("+") ? "+n" + k++ : nm.length === 2 && shorts.length ? "-" + shorts.shift() : "--n" + k++;
  const hide = (x: any, p: number) => { if (r.bool(p)) x.hid = r.pick(["all", "all", "usage", "doc", "help"]); else delete x.hid; };
  const walk = (x: any) => {
    if (x.ns) { x.ns = x.ns.map(ren); if (r.bool(0.3)) x.ns.push("--" + "long".repeat(r.range(1, 3)) + k++); }
    if (x.pos) { x.pos = x.pos.map(ren); x.neg = x.neg.map(ren); }
    if (x.vp) x.vp.mv = r.pick(["M", "M", "FILE_", "V-"]) + k++;
    if (x.t === "cmd") { x.nm = "c" + k++; x.al = x.al.map(() => "a" + k++); }
    if (x.t === "multi") { x.min = r.pick([0, 0, 1, 1, 2, 3]); x.max = r.bool(0.7) ? -1 : x.min + r.range(1, 3); }
    if (["opt", "bopt", "flag", "nflag", "arg", "cmd", "pass"].includes(x.t)) hide(x, hideP);
    else if (["obj", "group", "merge"].includes(x.t)) hide(x, hideP / 2);
    kids(x).forEach(walk);
  };
  walk(g); return g;
}
/** How many terms stand next to each other; "..." is only written behind one. */
export const terms = (g: any): number => g.t === "cond" ? (g.bcs.length + (g.hasdef ? 1 : 0) > 1 ? 1 : 2) : g.t === "multi" ? (g.min > 0 ? 2 : 1) : ["or", "lm"].includes(g.t) ? (leaves(g).some((x) => x.hid) ? Math.max(...kids(g).map(terms)) : 1) : ["optional", "dflt"].includes(g.t) ? 1 : g.t === "const" ? 0 : g.t === "cmd" ? 1 + terms(g.c) : kids(g).length ? kids(g).reduce((s, x) => s + terms(x), 0) : 1;
export const clear = (g: any): boolean => (!["or", "lm"].includes(g.t) || kids(g).every((x) => leaves(x).some((y) => !kids(y).length && y.t !== "const"))) && (g.t !== "multi" || terms(g.c) === 1) && !(g.t === "cond" && g.d.t !== "opt") && kids(g).every(clear);
/** An upper bound for the number of words of a grammar. */
export const size = (g: any, man = false): number => {
  const s = kids(g).map((x) => size(x, man)), prod = s.reduce((a, b) => a * b, 1);
  switch (g.t) {
    case "bopt": return 2;
    case "opt": case "flag": case "nflag": return man ? 2 : 1;
    case "optional": case "dflt": return 1 + s[0];
    case "multi": { const m = Math.max(g.min, 1); return s[0] ** (m + 1) + s[0] ** m + 1; }
    case "or": case "lm": return s.reduce((a, b) => a + b, 0);
    case "cond": return s.slice(1).reduce((a, b) => a + b, 0);
    default: return prod;
  }
};
/** Whether every positional argument stands alone, as far as the usage line goes. */
export const holds = (g: any): boolean => g.t === "arg" || kids(g).some(holds);
export const bareArg = (g: any): boolean => g.t === "arg" || ["map", "group", "nonempty"].includes(g.t) && bareArg(g.c);
export const plain1 = (g: any): boolean => !holds(g) || g.t === "arg" || (["optional", "dflt", "multi"].includes(g.t) ? bareArg(g.c)
  : ["obj", "merge", "group", "map", "nonempty"].includes(g.t) && kids(g).every(plain1));
export const plainArgs = (g: any): boolean => ["cmd", "map", "group", "or", "lm", "optional", "dflt"].includes(g.t) ? kids(g).every(plainArgs) : plain1(g);
/** Whether no positional argument among the alternatives could take the word instead. */
export const takesWord = (g: any): boolean => g.t === "arg" || g.t === "pass" || g.t !== "cmd" && kids(g).some(takesWord);
export const chosen = (root: any, x: any, depth: number): boolean => { let ok = true; const go = (g: any, d: number): void => { if (g === x) return; if (d === depth && ["or", "lm"].includes(g.t) && kids(g).some(takesWord)) ok = false; kids(g).forEach((y) => go(y, d + (g.t === "cmd" ? 1 : 0))); }; go(root, 0); return ok; };
export const leaves = (g: any): any[] => kids(g).length ? [g, ...kids(g).flatMap(leaves)] : [g];
export const shortest = (ns: string[]) => ns.reduce((a, b) => a.length <= b.length ? a : b);
export const bare = (s: string) => s.replace(/\x1b\[[0-9;]*m/g, "");
/** The page of a lone command shows it even if it is hidden. */
export const showLone = (g: any): void => { for (let x = g; x; x = ["map", "nonempty", "group"].includes(x.t) ? x.c : undefined) if (x.t === "cmd") delete x.hid; };
