// Canonical tagged encoding of JavaScript values, shared with the TLA+ spec.
export type Tagged =
  | { k: "u" | "s" | "i" | "b" | "z"; v: string }
  | { k: "a"; e: Tagged[] }
  | { k: "o"; f: { n: string; v: Tagged }[] };

export function encode(v: unknown): Tagged {
  if (v === undefined) return { k: "u", v: "" };
  if (v === null) return { k: "z", v: "null" };
  switch (typeof v) {
    case "string": return { k: "s", v };
    case "number": return { k: "i", v: Number.isNaN(v) ? "NaN" : String(v) };
    case "bigint": return { k: "i", v: String(v) };
    case "boolean": return { k: "b", v: String(v) };
  }
  if (Array.isArray(v)) return { k: "a", e: Array.from(v, encode) };
  if (typeof v === "object") {
    return {
      k: "o",
      f: Object.keys(v as object).map((n) => ({ n, v: encode((v as Record<string, unknown>)[n]) })),
    };
  }
  return { k: "z", v: typeof v };
}
export function decode(t: Tagged): unknown {
  switch (t.k) {
    case "u": return undefined;
    case "z": return null;
    case "s": return t.v;
    case "i": return Number(t.v);
    case "b": return t.v === "true";
    case "a": return t.e.map(decode);
    case "o": return Object.fromEntries(t.f.map((x) => [x.n, decode(x.v)]));
  }
}
export function sameValue(a: any, b: any): boolean {
  if (a.k !== b.k) return false;
  if (a.k === "a") return a.e.length === b.e.length && a.e.every((x: any, i: number) => sameValue(x, b.e[i]));
  if (a.k === "o") return a.f.length === b.f.length && a.f.every((x: any) => b.f.some((y: any) => x.n === y.n && sameValue(x.v, y.v)));
  return a.v === b.v;
}
export function sameOutcome(a: any, b: any): boolean { return a.k === b.k && (a.k !== "ok" || sameValue(a.v, b.v)); }
