// Conformance driver: random grammars x command lines on the real parsers.
import { writeFileSync } from "node:fs";
import { Rng } from "./lib/rng.ts";
import { Argv, Gen, INNER, LEAF, type Profile } from "./lib/gen.ts";
import { runAsync, runSync, tryBuild } from "./lib/run.ts";

const [, , seedS, countS, out] = process.argv;
const seed = Number(seedS), count = Number(countS);
const prof: Profile = { root: { ...INNER, obj: 30 }, inner: INNER, leaf: LEAF, depth: 3 };
const lines: string[] = [];
const r = new Rng(seed);
let i = 0;
while (i < count) {
  const gr = new Rng(r.int(2 ** 31));
  const g = new Gen(gr, prof).grammar();
  for (let k = 0; k < 6 && i < count; k++) {
    const argv = new Argv(gr, prof).argv(g);
    const s = tryBuild(g, {});
    const obs: any[] = [];
    obs.push({ m: "sync", r: s.out ?? runSync(s.p, argv) });
    if (/"t":"cond","d":\{"t":"(dflt|const)/.test(JSON.stringify(g))) { lines.push(JSON.stringify({ id: i, g, argv, obs })); i++; if (s.out) break; continue; }
    const a = tryBuild(g, { async: true, tick: async () => {} });
    obs.push({ m: "async", r: a.out ?? await runAsync(a.p, argv) });
    lines.push(JSON.stringify({ id: i, g, argv, obs }));
    i++;
    if (s.out) break;
  }
}
writeFileSync(out, lines.join("\n") + "\n");
