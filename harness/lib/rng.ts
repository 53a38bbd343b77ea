// Deterministic pseudo-random numbers (mulberry32).
export class Rng {
  s: number;
  constructor(seed: number) { this.s = (seed ^ 0x9e3779b9) >>> 0; for (let i = 0; i < 4; i++) this.u(); }
  u(): number {
    this.s = (this.s + 0x6d2b79f5) >>> 0;
    let t = this.s;
    t = Math.imul(t ^ (t >>> 15), t | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return ((t ^ (t >>> 14)) >>> 0) / 4294967296;
  }
  int(n: number): number { return Math.floor(this.u() * n); }
  range(a: number, b: number): number { return a + this.int(b - a + 1); }
  bool(p = 0.5): boolean { return this.u() < p; }
  pick<T>(xs: readonly T[]): T { return xs[this.int(xs.length)]; }
  weighted<T extends string>(w: Partial<Record<T, number>>): T {
    const es = Object.entries(w).filter(([, v]) => (v as number) > 0) as [T, number][];
    let tot = 0; for (const [, v] of es) tot += v;
    let x = this.u() * tot;
    for (const [k, v] of es) { x -= v; if (x < 0) return k; }
    return es[es.length - 1][0];
  }
  shuffle<T>(xs: T[]): T[] {
    const a = [...xs];
    for (let i = a.length - 1; i > 0; i--) { const j = this.int(i + 1); [a[i], a[j]] = [a[j], a[i]]; }
    return a;
  }
}
