// Generator profiles: where the random grammars of each property concentrate.
import { INNER, LEAF, type Profile } from "./gen.ts";
const base: Profile = { root: { ...INNER, obj: 30 }, inner: INNER, leaf: LEAF, depth: 3 };
const boost = (m: Record<string, number>, root: Record<string, number> = {}, x: Partial<Profile> = {}): Profile => ({
  ...base, inner: { ...INNER, ...m }, root: { ...base.root, ...m, ...root }, ...x,
});
export const profiles: Record<string, Profile> = {
  C01: boost({ obj: 20, multi: 14 }, { obj: 40 }, { mut: { none: 10, dup: 20, ins: 20, swap: 10, dd: 8, junk: 8, other: 20, bundle: 6 } }),
  C02: boost({ obj: 25, merge: 10, group: 4, or: 3, lm: 1, seq: 1, cond: 2 }, { obj: 60, merge: 25, seq: 0 }, { mut: { shuffle: 60, swap: 30, dup: 6, dd: 4 }, mutCount: [1, 3] }),
  C03: boost({ obj: 20 }, {}, { leaf: { opt: 30, bopt: 25, flag: 22, nflag: 8, arg: 12, const: 2, pass: 1 }, names: { long: 35, short: 40, slash: 12, plus: 4, sdl: 9 },
    mut: { bundle: 30, joinflag: 12, none: 20, dup: 8, swap: 10, junk: 8, trunc: 6, dd: 6 }, mutCount: [0, 3] }),
  C04: boost({ multi: 14 }, {}, { leaf: { opt: 25, bopt: 14, flag: 14, nflag: 6, arg: 28, const: 2, pass: 2 }, mut: { dd: 60, swap: 15, ins: 15, dup: 10, other: 10 }, mutCount: [1, 3] }),
  C05: boost({ or: 30, obj: 18 }, { or: 40 }, { dupNames: 0.15, mut: { other: 30, ins: 20, swap: 15, dup: 10, del: 10, none: 15 } }),
  C06: boost({ lm: 30, obj: 18 }, { lm: 40 }, { dupNames: 0.2, mut: { other: 30, ins: 20, swap: 15, dup: 10, del: 10, none: 15 } }),
  C07: boost({ optional: 22, dflt: 25 }, {}, { mut: { del: 25, junk: 15, trunc: 12, swap: 10, ins: 15, none: 15, other: 8 }, vps: { str: 30, choice: 35, int: 35 } }),
  C08: boost({ multi: 35, nonempty: 8 }, { multi: 30 }, { mut: { dup: 25, del: 15, other: 25, swap: 10, none: 15, dd: 5, bundle: 6 } }),
  C09: boost({ seq: 25, tup: 20, concat: 10 }, { seq: 40, tup: 25, concat: 10, obj: 10 }, { mut: { swap: 30, none: 20, ins: 15, dup: 12, del: 10, dd: 10, other: 8 } }),
  C10: boost({ cond: 30 }, { cond: 50 }, { mut: { swap: 15, none: 20, ins: 25, del: 15, dup: 10, other: 15 } }),
  C11: boost({ cmd: 35, or: 14 }, { cmd: 30, or: 25 }, { mut: { ins: 25, swap: 20, none: 20, del: 15, dup: 10, dd: 4, other: 10 } }),
  C12: boost({ group: 14, merge: 18, concat: 10, map: 8, tup: 8 }, { merge: 40, concat: 15, group: 10 }),
  C31: boost({}, {}, { leaf: { opt: 22, bopt: 12, flag: 12, nflag: 4, arg: 14, const: 2, pass: 30 }, mut: { junk: 30, ins: 20, swap: 15, dd: 10, dup: 10, none: 10, joinflag: 10 }, mutCount: [1, 4] }),
  C32: boost({ multi: 3 }, {}, { mut: { dup: 50, bundle: 20, other: 25, ins: 10 }, mutCount: [1, 2] }),
  C33: boost({ optional: 4, dflt: 3, multi: 5 }, {}, { mut: { del: 60, trunc: 15, none: 10, junk: 10 }, mutCount: [1, 2] }),
  C20: boost({ or: 8, cmd: 10, obj: 18, multi: 12 }, { obj: 40, cmd: 10, or: 14 }, { leaf: { opt: 34, bopt: 10, flag: 12, nflag: 4, arg: 18, const: 2, pass: 1 },
    vps: { str: 20, choice: 60, int: 20 }, hid: 0.08, mut: { none: 60, del: 12, ins: 8, dup: 6, swap: 12, dd: 6, other: 10 }, mutCount: [0, 1] }),
  base,
};
