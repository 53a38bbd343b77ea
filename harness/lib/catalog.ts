// Small-scope grammars, explored exhaustively by TLC (spec/OptiqueMC.tla).
// Each entry: a grammar, an alphabet of chunks (indivisible token runs) and a
// maximal number of chunks; plus the declarative predicates that hold for it.
import type { Ast } from "./ast.ts";
import { a, ac, ai, b, cmd, concat, cond, dfl, f, fail, grp, k, lm, map, merge, multi, ne, nf, o, obj, oc, oi, opt, or, pass, seq, tup } from "./dsl.ts";

export interface Chunk { t: string[]; v: string[]; k: string; g: string }
export interface Entry {
  id: string; g: Ast; ch: Chunk[]; max: number;
  pr: { p: string; alts: Ast[]; key: string; gs: string[]; dv: string; lo: number; hi: number }[];
}
// "tokens ... | kind | group": kind p = positional, o = option, t = terminator
function chunk(s: string): Chunk {
  const [toks, kind = "", g = ""] = s.split("|").map((x) => x.trim());
  const t = toks === "" ? [] : toks.split(" ").map((x) => (x === "''" ? "" : x));
  const v = t.flatMap((x) => { const m = /(?:^|[=:])([vw]\d+)$/.exec(x); return m ? [m[1]] : []; });
  return { t, v, k: kind || (t.length && t[0] === "--" ? "t" : t.length && /^[-/+]./.test(t[0]) ? "o" : "p"), g };
}
const P = (p: string, x: Partial<Entry["pr"][0]> = {}) => ({ p, alts: [], key: "", gs: [], dv: "", lo: 0, hi: 0, ...x });
const out: Record<string, Entry[]> = {};
function E(prop: string, g: Ast, ch: string[], max: number, ...pr: Entry["pr"]) {
  const l = (out[prop] ??= []);
  l.push({ id: `${prop}.${l.length}`, g, ch: ch.map(chunk), max, pr });
}

// --- C01 -------------------------------------------------------------------
const acct = P("acct");
E("C01", obj({ x: opt(o("--x", "-x")), y: opt(o("-y")), r: multi(a()) }), ["--x v0", "-x v1", "--x=v2", "-y v3", "v4", "v5", "--", "--z"], 4, acct);
E("C01", obj({ p: f("-p"), q: opt(f("-q")), r: opt(f("-r")), s: multi(a()) }), ["-p", "-q", "-r", "-pq", "-qrp", "-rp", "v0", "--"], 4, acct);
E("C01", obj({ v: opt(f("-v")), o: or(obj({ x: o("--x"), z: opt(o("--z")) }), obj({ x: o("--x"), y: o("--y") })) }), ["--x v0", "--y v1", "--z v2", "-v"], 5, acct);
E("C01", obj({ v: multi(f("-v")), o: lm(obj({ x: o("--x"), z: opt(o("--z")) }), obj({ x: o("--x"), y: o("--y") })) }), ["--x v0", "--y v1", "--z v2", "-v"], 5, acct);
E("C01", multi(lm(o("-x"), o("-y"), a())), ["-x v0", "-y v1", "v2", "v3"], 4, acct);
E("C01", multi(or(o("-x"), o("-y"), a())), ["-x v0", "-y v1", "v2", "v3"], 4, acct);
E("C01", multi(obj({ x: opt(o("-x")), y: opt(o("-y")) })), ["-x v0", "-y v1", "-x v2", "v9"], 5, acct);
E("C01", merge(obj({ x: opt(o("-x")), m: multi(o("-m")) }), obj({ y: opt(o("-y")), p: opt(a()) })), ["-x v0", "-m v1", "-m v2", "-y v3", "v4", "--"], 4, acct);
E("C01", tup(multi(o("-x")), opt(a()), multi(o("-y"))), ["-x v0", "-x v1", "-y v2", "v3", "--"], 5, acct);
E("C01", seq(multi(a(), 0, 2), opt(o("-x")), multi(a(), 0, 2)), ["v0", "v1", "-x v2", "v3", "--"], 5, acct);
E("C01", cond(oc(["on", "off"], "--k"), { on: obj({ x: opt(o("-x")) }), off: obj({ y: multi(o("-y")) }) }, obj({ z: opt(o("-z")), r: multi(a()) })), ["--k on", "--k off", "-x v0", "-y v1", "-z v2", "v3"], 4, acct);
E("C01", obj({ c: opt(cmd("go", obj({ x: opt(o("-x")), r: multi(a()) }))), y: opt(o("-y")) }), ["go|c", "-x v0", "-y v1", "v2", "--"], 4, acct);
E("C01", concat(tup(opt(o("-x")), multi(a(), 0, 1)), tup(opt(o("-y")), multi(o("-z")))), ["-x v0", "-y v1", "-z v2", "v3", "--"], 4, acct);

// --- C02 -------------------------------------------------------------------
const perm = P("perm");
E("C02", obj({ x: o("--x", "-x"), y: opt(o("--y")), f: opt(f("-f")), r: multi(a()) }), ["--x v0", "--y=v1", "-f", "v2", "v3"], 5, perm);
E("C02", obj({ a: a(), x: opt(o("-x")), b: opt(a()), y: multi(oi(0, 9, "-y")) }), ["v0", "-x v1", "v2", "-y 3|o|y", "-y 5|o|y"], 5, perm);
E("C02", merge(obj({ x: opt(o("-x")), a: opt(a()) }), obj({ y: opt(o("-y")), z: opt(b("-z")) }), grp(obj({ w: multi(o("-w")) }))), ["-x v0", "-y v1", "-z", "-w v2|o|w", "-w v3|o|w", "v4"], 4, perm);
E("C02", obj({ n: obj({ x: o("-x"), y: opt(o("-y")) }), m: grp(obj({ z: opt(o("-z")), a: opt(a()) })), q: dfl(o("-q"), "D") }), ["-x v0", "-y v1", "-z v2", "v3", "-q v4"], 5, perm);
E("C02", obj({ a: ai(0, 9), b: ac("red", "green"), x: opt(oc(["red", "blue"], "-x")), f: b("-f") }), ["5", "red", "-x red", "-x blue", "-f", "bad"], 4, perm);
E("C02", merge(obj({ x: o("-x"), a: a() }), merge(obj({ y: dfl(o("-y"), "D") }), obj({ b: multi(a(), 1, 2) }))), ["-x v0", "-y v1", "v2", "v3", "v4"], 5, perm);
E("C02", obj({ v: multi(f("-v")), n: nf(["--yes"], ["--no"]), x: opt(o("/X", "+x")) }), ["-v|o|v", "--yes", "--no", "/X:v0", "+x v1"], 4, perm);

// --- C03 -------------------------------------------------------------------
const same = P("same");
E("C03", obj({ x: o("--xx", "-x"), y: opt(o("-y", "--y")), r: multi(a()) }), ["--xx v0||1", "-x v0||1", "--xx=v0||1", "-y v1||2", "--y=v1||2", "v2"], 3, same);
E("C03", obj({ x: o("--xx", "-x", "/X"), y: opt(o("+y", "--y")), r: opt(b("-b")) }), ["--xx v0||1", "-x v0||1", "--xx=v0||1", "/X:v0||1", "/X v0||1", "+y v1||2", "--y=v1||2", "-b"], 3, same);
E("C03", obj({ p: b("-p", "--pp"), q: opt(f("-q", "--qq")), r: opt(nf(["-r"], ["-n"])), s: opt(o("-s")) }), ["-p -q||1", "-pq||1", "-p --qq||1", "-r||3", "-q -r||2", "-qr||2", "-n", "-s -q", "--pp=1"], 4, same);
E("C03", obj({ x: opt(o("--x")), f: opt(f("--f", "-f")), y: opt(b("-b")), r: multi(a()) }), ["--x -f||1", "--x=-f||1", "--x --||2", "--x=--||2", "--x=||3", "--x ''||3", "-f", "-bf", "--f=1", "-b="], 3, same);
E("C03", multi(or(o("--x", "-x"), f("-f", "--ff"))), ["--x v0||1", "-x v0||1", "--x=v0||1", "-f||2", "--ff||2"], 4, same);
E("C03", tup(multi(oi(0, 99, "--nn", "-n", "-zn")), opt(oc(["a=b", "a"], "--c", "/C"))), ["--nn 5||1", "-n 5||1", "--nn=5||1", "-zn=5||1", "-zn 5||1", "--c a=b||2", "--c=a=b||2", "/C:a=b||2", "--nn -1"], 3, same);
E("C03", cond(oc(["on"], "--k", "-k"), { on: obj({ x: opt(o("--x", "-x")), g: b("-g", "--gg") }) }), ["--k on||1", "-k on||1", "--k=on||1", "--x v0||2", "-x v0||2", "--x=v0||2", "-g||3", "--gg||3"], 3, same);
E("C03", seq(opt(b("-p", "--pp")), opt(f("-q", "--qq")), multi(o("-x", "--x"))), ["-p||1", "--pp||1", "-q||2", "--qq||2", "-x v0||3", "--x v0||3", "--x=v0||3", "-pq"], 4, same);

// --- C04 -------------------------------------------------------------------
const term = P("term");
E("C04", obj({ x: opt(o("-x", "--x")), f: b("-f"), r: multi(a()) }), ["--", "-f", "-x v0", "--x=v1", "v2", "-"], 5, term);
E("C04", obj({ f: opt(f("-f")), n: opt(nf(["-y"], ["-n"])), o: opt(a()), p: opt(a()) }), ["--", "-f", "-y", "-n", "v0"], 5, term);
E("C04", tup(opt(f("-f")), multi(o("-x")), multi(a())), ["--", "-f", "-x v0", "v1", "-x|d"], 5, term);
E("C04", seq(opt(o("-x")), multi(a())), ["--", "-x v0", "-x|d", "v1"], 5, term);
E("C04", merge(obj({ x: opt(o("-x")), r: multi(a(), 0, 2) }), obj({ f: b("-f"), p: opt(a()) })), ["--", "-f", "-x v0", "v1", "-z"], 5, term);
E("C04", or(obj({ f: f("-f"), r: multi(a()) }), obj({ g: opt(f("-g")), r: multi(a(), 1) })), ["--", "-f", "-g", "v0"], 5, term);
E("C04", lm(obj({ f: f("-f"), r: multi(a()) }), obj({ g: opt(f("-g")), r: multi(a(), 1) })), ["--", "-f", "-g", "v0"], 5, term);
E("C04", cmd("go", obj({ x: opt(o("-x")), f: b("-f"), r: multi(a()) })), ["go", "--", "-f", "-x v0", "v1"], 5, term);
E("C04", multi(obj({ f: opt(f("-f")), r: a() })), ["--", "-f", "v0", "v1"], 5, term);
E("C04", cond(oc(["on", "off"], "-k"), { on: obj({ f: b("-f"), r: multi(a()) }), off: multi(a()) }, obj({ g: b("-g"), r: multi(a()) })), ["-k on", "-k off", "--", "-f", "-g", "v0"], 4, term);
E("C04", concat(tup(b("-f"), opt(a())), tup(b("-g"), multi(a()))), ["--", "-f", "-g", "v0"], 5, term);
E("C04", obj({ p: b("-p"), q: b("-q"), r: multi(a()), z: pass("nextToken") }), ["--", "-p", "-pq", "-z", "v0"], 5, term);

// --- C05 -------------------------------------------------------------------
{
  const A = obj({ x: o("-x"), s: opt(o("-s")) }), B = obj({ y: o("-y"), s: opt(o("-s")) }), C = obj({ z: opt(o("-z")) });
  const alts = (w: (g: Ast) => Ast, ...gs: Ast[]) => P("alts", { alts: gs.map(w) });
  const id = (g: Ast) => g;
  E("C05", or(A, B), ["-x v0", "-y v1", "-s v2", "v3"], 5, alts(id, A, B));
  E("C05", or(A, B, C), ["-x v0", "-y v1", "-s v2", "-z v3"], 4, alts(id, A, B, C));
  const W1 = (g: Ast) => obj({ v: multi(f("-v")), o: g });
  E("C05", W1(or(A, B)), ["-x v0", "-y v1", "-s v2", "-v"], 5, alts(W1, A, B));
  const X = obj({ x: o("-x"), z: opt(o("-z")) }), Y = obj({ x: o("-x"), y: o("-y") });
  E("C05", W1(or(X, Y)), ["-x v0", "-y v1", "-z v2", "-v"], 5, alts(W1, X, Y));
  E("C05", W1(or(Y, X)), ["-x v0", "-y v1", "-z v2", "-v"], 5, alts(W1, Y, X));
  const W2 = (g: Ast) => merge(g, obj({ v: opt(f("-v")), r: multi(a()) }));
  E("C05", W2(or(A, B)), ["-x v0", "-y v1", "-s v2", "-v", "v3"], 4, alts(W2, A, B));
  const W3 = (g: Ast) => tup(opt(g), opt(f("-v")));
  E("C05", W3(or(A, B)), ["-x v0", "-y v1", "-s v2", "-v"], 5, alts(W3, A, B));
  const W4 = (g: Ast) => seq(g, multi(a()));
  E("C05", W4(or(A, B)), ["-x v0", "-y v1", "-s v2", "v3"], 4, alts(W4, A, B));
  E("C05", or(a(), o("-x"), k("c")), ["v0", "-x v1", "v2"], 4, alts(id, a(), o("-x"), k("c")));
  E("C05", or(f("-f"), k("c"), opt(o("-x"))), ["-f", "-x v0", "v1"], 4, alts(id, f("-f"), k("c"), opt(o("-x"))));
  E("C05", or(ac("red"), ac("red", "green"), a()), ["red", "green", "v0"], 3, alts(id, ac("red"), ac("red", "green"), a()));
  E("C05", or(o("-x"), oi(0, 9, "-x"), oi(0, 9, "-y")), ["-x v0", "-x 5", "-y 7", "-y v1"], 3, alts(id, o("-x"), oi(0, 9, "-x"), oi(0, 9, "-y")));
  E("C05", or(cmd("go", obj({ x: opt(o("-x")) })), cmd("up", obj({ y: opt(o("-y")) }), "u"), a()), ["go", "up", "u", "-x v0", "-y v1"], 4,
    alts(id, cmd("go", obj({ x: opt(o("-x")) })), cmd("up", obj({ y: opt(o("-y")) }), "u"), a()));
  const N1 = or(obj({ p: f("-p") }), obj({ q: f("-q"), r: opt(o("-r")) })), N2 = obj({ r: o("-r"), t: opt(f("-t")) });
  E("C05", or(N1, N2), ["-p", "-q", "-r v0", "-t"], 4, alts(id, N1, N2));
  const K1 = cond(oc(["on"], "-k"), { on: obj({ x: opt(o("-x")) }) }), K2 = obj({ k: o("-k"), y: opt(o("-y")) });
  E("C05", or(K1, K2), ["-k on", "-k v0", "-x v1", "-y v2"], 4, alts(id, K1, K2));
  E("C05", W1(or(K1, obj({ y: o("-y") }))), ["-k on", "-x v1", "-y v2", "-v"], 4, alts(W1, K1, obj({ y: o("-y") })));
  // C06
  E("C06", lm(A, B), ["-x v0", "-y v1", "-s v2", "v3"], 5, alts(id, A, B), P("longest", { alts: [A, B] }));
  E("C06", lm(X, Y), ["-x v0", "-y v1", "-z v2"], 5, alts(id, X, Y), P("longest", { alts: [X, Y] }));
  E("C06", W1(lm(X, Y)), ["-x v0", "-y v1", "-z v2", "-v"], 5, alts(W1, X, Y));
  E("C06", W1(lm(A, B)), ["-x v0", "-y v1", "-s v2", "-v"], 5, alts(W1, A, B));
  E("C06", W2(lm(A, B)), ["-x v0", "-y v1", "-s v2", "-v", "v3"], 4, alts(W2, A, B));
  E("C06", W3(lm(A, B)), ["-x v0", "-y v1", "-s v2", "-v"], 5, alts(W3, A, B));
  E("C06", lm(a(), tup(a(), a()), tup(a(), f("-f"), a())), ["v0", "v1", "-f", "v2", "--"], 4, alts(id, a(), tup(a(), a()), tup(a(), f("-f"), a())), P("longest", { alts: [a(), tup(a(), a()), tup(a(), f("-f"), a())] }));
  E("C06", lm(obj({ p: f("-p"), q: opt(f("-q")) }), obj({ p: f("-p"), r: opt(o("-r")) }), obj({ p: f("-p"), q: f("-q"), r: o("-r") })), ["-p", "-q", "-r v0", "-pq"], 4,
    P("alts", { alts: [obj({ p: f("-p"), q: opt(f("-q")) }), obj({ p: f("-p"), r: opt(o("-r")) }), obj({ p: f("-p"), q: f("-q"), r: o("-r") })] }));
  E("C06", lm(cmd("go", obj({ x: opt(o("-x")), r: multi(a()) })), multi(a()), tup(a(), o("-y"))), ["go", "-x v0", "-y v1", "v2"], 4,
    alts(id, cmd("go", obj({ x: opt(o("-x")), r: multi(a()) })), multi(a()), tup(a(), o("-y"))));
  E("C06", multi(lm(tup(f("-f"), a()), f("-f"), a())), ["-f", "v0", "v1"], 4);
  E("C06", seq(lm(A, B), opt(lm(f("-p"), tup(f("-p"), f("-q"))))), ["-x v0", "-y v1", "-s v2", "-p", "-q"], 4);
  E("C06", opt(lm(K1, K2)), ["-k on", "-k v0", "-x v1", "-y v2"], 4);
  E("C06", lm(or(A, B), C), ["-x v0", "-y v1", "-z v3", "-s v2"], 4, alts(id, or(A, B), C));
}

// --- C07 -------------------------------------------------------------------
const D = (key: string, ...gs: string[]) => P("dflt", { key, gs, dv: "D" });
E("C07", obj({ x: dfl(oi(0, 9, "-x"), "D"), y: opt(o("-y")) }), ["-x 5||x", "-x bad||x", "-x||x", "-y v0"], 4, D("x", "x"));
E("C07", obj({ x: dfl(obj({ p: o("-p"), q: oi(0, 9, "-q") }), "D"), y: opt(o("-y")) }), ["-p v0||x", "-q 5||x", "-q 99||x", "-y v1", "-p||x"], 4, D("x", "x"));
E("C07", obj({ x: dfl(tup(ac("red"), o("-p")), "D"), y: opt(o("-y")) }), ["red||x", "blue||x", "-p v0||x", "-y v1"], 4, D("x", "x"));
E("C07", obj({ x: dfl(cmd("go", obj({ n: oi(0, 9, "-n") })), "D"), y: opt(o("-y")) }), ["go||x", "-n 5||x", "-n bad||x", "-y v0"], 4, D("x", "x"));
E("C07", obj({ x: dfl(or(obj({ p: oi(0, 9, "-p"), s: f("-s") }), obj({ q: o("-q") })), "D"), y: opt(f("-y")) }), ["-p 5||x", "-p bad||x", "-s||x", "-q v0||x", "-y"], 4, D("x", "x"));
E("C07", obj({ x: dfl(cond(oc(["on"], "-k"), { on: obj({ n: oi(0, 9, "-n") }) }), "D"), y: opt(f("-y")) }), ["-k on||x", "-k bad||x", "-n 5||x", "-n 10||x", "-y"], 4, D("x", "x"));
E("C07", obj({ x: dfl(multi(oi(0, 9, "-x"), 2, 3), "D"), y: opt(f("-y")) }), ["-x 1||x", "-x 2||x", "-x bad||x", "-y"], 5, D("x", "x"));
E("C07", obj({ x: dfl(opt(oi(0, 9, "-x")), "D"), y: dfl(map(ai(0, 9)), "D") }), ["-x 5||x", "-x bad||x", "7||y", "bad||y"], 3, D("x", "x"), D("y", "y"));
E("C07", obj({ x: dfl(ne(obj({ p: opt(o("-p")), q: opt(oi(0, 9, "-q")) })), "D"), y: opt(f("-y")) }), ["-p v0||x", "-q 5||x", "-q bad||x", "-y"], 4, D("x", "x"));
E("C07", obj({ x: dfl(lm(obj({ p: oi(0, 9, "-p") }), obj({ p: o("-p"), q: o("-q") })), "D"), y: opt(f("-y")) }), ["-p 5||x", "-p v0||x", "-q v1||x", "-y"], 4, D("x", "x"));
E("C07", seq(dfl(oi(0, 9, "-x"), "D"), dfl(ai(0, 9), "D"), multi(f("-z"))), ["-x 5", "-x bad", "7", "bad", "-z"], 4);
E("C07", tup(dfl(oi(0, 9, "-x"), "D"), opt(obj({ p: o("-p"), q: f("-q") })), opt(ai(0, 9))), ["-x 5", "-x bad", "-p v0", "-q", "7", "bad"], 4);
E("C07", merge(obj({ x: dfl(oi(0, 9, "-x"), "D") }), obj({ y: opt(obj({ p: o("-p"), q: oi(1, 3, "-q") })) })), ["-x 5||x", "-x bad||x", "-p v0", "-q 2", "-q 9"], 4, D("x", "x"));
E("C07", obj({ x: dfl(nf(["--yes"], ["--no"]), "D"), n: dfl(f("-n"), "D"), z: opt(b("-z")) }), ["--yes||x", "--no||x", "--yes=1||x", "-n||n", "-z", "-nz||n"], 4, D("x", "x"), D("n", "n"));
E("C07", obj({ x: dfl(seq(oi(0, 9, "-x"), ai(0, 9)), "D"), y: opt(f("-y")) }), ["-x 5||x", "-x bad||x", "7||x", "bad||x", "-y"], 4, D("x", "x"));
E("C07", obj({ x: dfl(grp(merge(obj({ p: o("-p") }), obj({ q: oi(0, 9, "-q") }))), "D"), y: opt(f("-y")) }), ["-p v0||x", "-q 5||x", "-q bad||x", "-y"], 4, D("x", "x"));

// --- C08 -------------------------------------------------------------------
const M = (key: string, g: string, lo: number, hi: number) => P("multi", { key, gs: [g], lo, hi });
for (const [lo, hi] of [[0, -1], [1, 2], [2, 3], [0, 1], [2, 2]] as const) {
  E("C08", obj({ m: multi(o("-x", "--x"), lo, hi), y: opt(o("-y")) }), ["-x v0||m", "--x=v1||m", "-y v2"], 5, M("m", "m", lo, hi));
  E("C08", obj({ m: multi(a(), lo, hi), y: opt(f("-y")) }), ["v0||m", "v1||m", "-y"], 5, M("m", "m", lo, hi));
}
E("C08", multi(tup(f("-f"), a()), 1, 2), ["-f", "v0", "v1"], 6);
E("C08", multi(obj({ x: o("-x"), y: opt(o("-y")) }), 0, 2), ["-x v0", "-x v1", "-y v2"], 5);
E("C08", multi(cmd("go", obj({ x: opt(o("-x")) }), "g"), 1, 2), ["go", "g", "-x v0", "v1"], 5);
E("C08", obj({ m: multi(or(o("-x"), obj({ p: f("-p"), q: opt(f("-q")) })), 1, 3), z: opt(f("-z")) }), ["-x v0", "-p", "-q", "-z"], 5);
E("C08", obj({ m: multi(f("-v"), 1, 3), n: multi(nf(["-y"], ["-n"]), 0, 2) }), ["-v", "-vv", "-y", "-n", "-vy"], 4);
E("C08", multi(multi(o("-x"), 1, 2), 0, 2), ["-x v0", "-x v1", "v9"], 6);
E("C08", multi(cond(oc(["on", "off"], "-k"), { on: obj({ x: opt(o("-x")) }), off: o("-y") }), 0, 2), ["-k on", "-k off", "-x v0", "-y v1"], 5);
E("C08", obj({ m: multi(seq(o("-x"), opt(a())), 0, 2), z: opt(f("-z")) }), ["-x v0", "v1", "-z"], 6);
E("C08", ne(obj({ x: opt(o("-x")), y: multi(f("-y"), 0, 2) })), ["-x v0", "-y", "v1"], 4);
E("C08", or(ne(obj({ x: opt(o("-x")) })), k("c")), ["-x v0", "v1"], 3);
E("C08", seq(multi(oi(0, 9, "-n"), 1, 2), multi(a(), 0, 2)), ["-n 3", "-n bad", "v0", "v1", "--"], 5);
E("C08", obj({ m: dfl(multi(a(), 2, 3), "D"), n: opt(multi(o("-n"), 1)) }), ["v0", "v1", "-n v2", "--"], 5);
E("C08", obj({ m: multi(map(ai(0, 9)), 0, 2), n: opt(multi(map(o("-n")), 1, 2)) }), ["3", "7", "bad", "-n v2"], 5);

// --- C09 -------------------------------------------------------------------
const split = (...alts: Ast[]) => P("split", { alts });
{
  const S2 = (x: Ast, y: Ast, ch: string[], n: number) => E("C09", seq(x, y), ch, n, split(x, y));
  S2(multi(o("-x")), multi(o("-y")), ["-x v0", "-y v1", "v2"], 5);
  S2(opt(o("-x")), multi(a()), ["-x v0", "v1", "v2"], 5);
  S2(multi(a(), 1, 2), obj({ y: opt(o("-y")), z: opt(f("-z")) }), ["v0", "v1", "-y v2", "-z"], 5);
  S2(obj({ x: o("-x"), f: opt(f("-f")) }), obj({ x: opt(o("-y")), g: opt(f("-g")) }), ["-x v0", "-f", "-y v1", "-g"], 5);
  S2(cmd("go", opt(o("-x"))), multi(o("-y")), ["go", "-x v0", "-y v1"], 5);
  S2(obj({ p: opt(o("-p")) }), or(cmd("go", opt(o("-x"))), cmd("up", multi(a()))), ["-p v0", "go", "up", "-x v1", "v2"], 4);
  S2(a(), a(), ["v0", "v1", "-x"], 4);
  S2(opt(f("-f")), opt(f("-g")), ["-f", "-g"], 4);
  E("C09", seq(opt(f("-f")), opt(f("-g"))), ["-f", "-g", "-fg", "-gf"], 4);
  S2(dfl(o("-x"), "D"), seq(opt(f("-f")), multi(a())), ["-x v0", "-f", "v1"], 5);
  S2(cond(oc(["on", "off"], "-k"), { on: obj({ x: opt(o("-x")) }), off: obj({ y: o("-y") }) }), multi(a()), ["-k on", "-k off", "-x v0", "-y v1", "v2"], 4);
  E("C09", seq(o("-x"), opt(a()), f("-z")), ["-x v0", "v1", "-z", "--"], 5);
  E("C09", seq(multi(a()), o("-x"), multi(a())), ["v0", "v1", "-x v2", "--"], 5);
  E("C09", seq(opt(o("-x")), opt(o("-y")), opt(o("-z"))), ["-x v0", "-y v1", "-z v2", "-y=v3"], 5);
  E("C09", seq(multi(o("--x")), opt(o("--xy")), b("-b"), a()), ["--x v0", "--x=v1", "--xy=v2", "-b", "v3"], 4);
  E("C09", tup(o("-x"), a(), opt(f("-f"))), ["-x v0", "v1", "-f", "--"], 5);
  E("C09", tup(a(), ai(0, 9), multi(o("-y"))), ["v0", "5", "-y v1", "-y v2", "--"], 4);
  E("C09", concat(tup(o("-x"), opt(a())), tup(opt(o("-y")), b("-z"))), ["-x v0", "v1", "-y v2", "-z"], 5);
  E("C09", obj({ s: seq(opt(f("-f")), o("-x")), y: opt(o("-y")) }), ["-f", "-x v0", "-y v1"], 5);
  E("C09", seq(tup(opt(f("-f")), o("-x")), lm(f("-p"), obj({ p: f("-p"), q: opt(f("-q")) }))), ["-f", "-x v0", "-p", "-q"], 4);
  E("C09", multi(seq(o("-x"), multi(f("-f"), 0, 2))), ["-x v0", "-f", "-ff"], 5);
}

// --- C10 -------------------------------------------------------------------
const disc = (...gs: string[]) => P("disc", { gs });
{
  const kd = oc(["on", "off", "zz"], "-k", "--k");
  const on = obj({ x: opt(o("-x")) }), off = obj({ y: o("-y") }), df = obj({ d: opt(o("-d")), r: multi(a()) });
  const CH = ["-k on||on", "-k off||off", "-k zz||zz", "-x v0", "-y v1", "-d v2", "v3"];
  E("C10", cond(kd, { on, off }), CH, 4, disc("on", "off", "zz"));
  E("C10", cond(kd, { on, off }, df), CH, 4, disc("on", "off", "zz"));
  E("C10", obj({ c: cond(kd, { on, off }, df), v: opt(f("-v")) }), [...CH.slice(0, 6), "-v"], 4);
  E("C10", cond(o("-k"), { on, off }, df), ["-k on||on", "-k off||off", "-k toString||toString", "-k __proto__||__proto__", "-x v0", "-y v1", "-d v2"], 4, disc("on", "off", "toString", "__proto__"));
  E("C10", cond(a(), { on, off }), ["on||on", "off||off", "constructor||constructor", "-x v0", "-y v1"], 4, disc("on", "off", "constructor"));
  E("C10", cond(ac("on", "off"), { on, off }, obj({ d: o("-d") })), ["on||on", "off||off", "bad", "-x v0", "-y v1", "-d v2"], 4, disc("on", "off"));
  E("C10", merge(obj({ v: opt(f("-v")) }), obj({ c: cond(kd, { on: o("-x"), off: multi(o("-y")) }) })), [...CH.slice(0, 5), "-v"], 4);
  E("C10", or(cond(kd, { on, off }), obj({ z: f("-z") })), [...CH.slice(0, 5), "-z"], 4);
  E("C10", tup(cond(kd, { on, off }, obj({ d: o("-d") })), opt(a())), CH, 4);
  E("C10", opt(cond(kd, { on, off })), CH.slice(0, 5), 4);
  E("C10", cond(grp(kd), { on: cond(oc(["a", "b"], "-j"), { a: o("-x"), b: k("bb") }), off: fail() }), ["-k on||on", "-k off||off", "-j a", "-j b", "-x v0"], 5, disc("on", "off"));
  E("C10", cond(dfl(kd, "on"), { on, off }, df), CH, 4);
  E("C10", cond(dfl(kd, "off"), { on, off }), CH.slice(0, 5), 4);
  E("C10", cond(k("on"), { on, off }, df), CH.slice(3), 4);
  E("C10", cmd("go", cond(kd, { on, off }, df)), ["go", ...CH.slice(0, 6)], 4);
  E("C10", multi(cond(kd, { on, off }), 0, 2), CH.slice(0, 5), 4);
}

// --- C11 -------------------------------------------------------------------
{
  const go = cmd("go", obj({ x: opt(o("-x")), r: multi(a()) }), "g", "G"), up = cmd("up", obj({ y: o("-y") }), "u"), go2 = cmd("go", obj({ x: opt(o("-x")), w: opt(f("-w")) }), "g", "G");
  E("C11", or(go, up), ["go", "g", "G", "up", "u", "-x v0", "-y v1", "goo"], 4);
  E("C11", or(go2, up), ["go||1", "g||1", "G||1", "up||2", "u||2", "-x v0", "-y v1", "-w"], 4, same);
  E("C11", obj({ v: opt(f("-v")), c: or(go2, up) }), ["go||1", "g||1", "up||2", "u||2", "-x v0", "-y v1", "-v"], 4, same);
  E("C11", obj({ v: opt(f("-v")), c: or(go, up) }), ["go", "g", "up", "u", "-x v0", "-y v1", "-v"], 4);
  E("C11", cmd("a", or(cmd("b", cmd("c", o("-x"), "cc"), "bb"), cmd("c", f("-f"))), "aa"), ["a||1", "aa||1", "b||2", "bb||2", "c", "cc", "-x v0", "-f"], 4, same);
  E("C11", obj({ v: opt(f("-v")), c: opt(cmd("a", obj({ w: opt(f("-w")), d: opt(or(cmd("b", obj({ x: opt(o("-x")) }), "bb"), cmd("c", k("kc")))) }), "aa")) }), ["a||1", "aa||1", "b||2", "bb||2", "c", "-v", "-w", "-x v0"], 5, same);
  E("C11", merge(obj({ v: opt(f("-v")) }), or(cmd("a", obj({ x: opt(o("-x")) }), "aa"), cmd("b", obj({ y: opt(o("-y")) })))), ["a||1", "aa||1", "b", "-v", "-x v0", "-y v1"], 4, same);
  E("C11", obj({ c: go, p: opt(a()) }), ["go", "g", "v0", "-x v1", "--"], 4);
  E("C11", lm(cmd("a", opt(o("-x")), "aa"), cmd("b", a()), a()), ["a", "aa", "b", "-x v0", "v1"], 4);
  E("C11", multi(or(cmd("a", opt(o("-x")), "aa"), cmd("b", o("-y"), "bb"))), ["a||1", "aa||1", "b||2", "bb||2", "-x v0", "-y v1"], 4, same);
  E("C11", multi(or(cmd("a", opt(o("-x")), "aa"), cmd("b", a()))), ["a", "aa", "b", "-x v0", "v1"], 4);
  E("C11", seq(opt(cmd("a", obj({ x: opt(o("-x")) }), "aa")), or(cmd("b", obj({ y: opt(o("-y")) })), cmd("c", k("kc")))), ["a||1", "aa||1", "b", "c", "-x v0", "-y v1"], 4, same);
  E("C11", tup(cmd("a", k("ka"), "aa"), cmd("b", opt(o("-x")))), ["a||1", "aa||1", "b", "-x v0"], 5, same);
  E("C11", cmd("a", cmd("a", opt(a()))), ["a", "v0", "--"], 5);
  E("C11", or(cmd("go", multi(a())), obj({ x: o("-x") }), cmd("-m", opt(a()), "--mm")), ["go", "-m", "--mm", "v0", "-x v1"], 4);
}

// --- C12 -------------------------------------------------------------------
const eqg = (...alts: Ast[]) => P("eqg", { alts });
{
  const x = opt(o("-x")), y = o("-y"), m = multi(o("-m")), p = opt(a()), q = dfl(oi(0, 9, "-q"), "D"), fl = opt(f("-f"));
  E("C12", merge(obj({ x, y }), obj({ m, p })), ["-x v0", "-y v1", "-m v2", "v3", "-z"], 5, eqg(obj({ x, y, m, p }), merge(obj({ x }), obj({ y, m }), obj({ p })), grp(merge(obj({ x, y }), grp(obj({ m, p }))))));
  E("C12", merge(obj({ y }), obj({ q }), obj({ fl })), ["-y v1", "-q 5", "-q bad", "-f", "v0"], 5, eqg(obj({ y, q, fl }), merge(merge(obj({ y }), obj({ q })), obj({ fl }))));
  E("C12", concat(tup(y, x), tup(p, fl)), ["-x v0", "-y v1", "v2", "-f"], 5, eqg(concat(tup(y), tup(x), tup(p, fl)), grp(concat(tup(y, x), tup(p, fl)))));
  E("C12", obj({ y, g: grp(obj({ x, m })), p }), ["-x v0", "-y v1", "-m v2", "v3"], 5, eqg(obj({ y: grp(y), g: obj({ x: grp(x), m: grp(m) }), p: grp(grp(p)) })));
  E("C12", or(grp(obj({ y, x })), grp(obj({ p: a(), m }))), ["-x v0", "-y v1", "-m v2", "v3"], 5, eqg(or(obj({ y, x }), obj({ p: a(), m })), grp(or(obj({ y, x }), obj({ p: a(), m })))));
  E("C12", seq(grp(multi(a())), grp(x), grp(multi(a(), 0, 1))), ["v0", "v1", "-x v2"], 5, eqg(seq(multi(a()), x, multi(a(), 0, 1))));
  E("C12", cond(grp(oc(["on", "off"], "-k")), { on: grp(obj({ x })), off: obj({ y }) }, grp(obj({ m }))), ["-k on", "-k off", "-x v0", "-y v1", "-m v2"], 4, eqg(cond(oc(["on", "off"], "-k"), { on: obj({ x }), off: grp(obj({ y })) }, obj({ m }))));
  E("C12", multi(grp(obj({ y, x })), 0, 2), ["-x v0", "-y v1", "-y v2"], 5, eqg(multi(obj({ y, x }), 0, 2), grp(multi(obj({ y: grp(y), x }), 0, 2))));
  E("C12", map(obj({ y, c: opt(cmd("go", grp(x))) })), ["-y v0", "go", "-x v1"], 5, eqg(map(grp(obj({ y, c: opt(grp(cmd("go", x))) })))));
  E("C12", merge(obj({ y, c: opt(cmd("go", obj({ z: opt(o("-z")) }))) }), obj({ p })), ["-y v0", "go", "-z v1", "v2"], 4, eqg(obj({ y, c: opt(cmd("go", obj({ z: opt(o("-z")) }))), p })));
  E("C12", lm(grp(tup(a(), fl)), grp(tup(a(), y))), ["v0", "-f", "-y v1"], 4, eqg(lm(tup(a(), fl), tup(a(), y))));
  E("C12", multi(cmd("go", fl)), ["go", "-f", "v0"], 5, eqg(multi(grp(cmd("go", fl))), multi(grp(cmd("go", grp(fl)))), grp(multi(grp(grp(cmd("go", fl)))))));
  E("C12", multi(ne(cmd("go", fl))), ["go", "-f", "v0"], 5, eqg(multi(ne(grp(cmd("go", fl)))), multi(grp(ne(cmd("go", fl))))));
  E("C12", multi(map(cmd("go", b("-f")))), ["go", "-f"], 5, eqg(multi(map(grp(cmd("go", b("-f"))))), multi(grp(map(cmd("go", b("-f")))))));
  E("C12", multi(obj({ y })), ["-y v0", "-y v1", "v2"], 4, eqg(multi(grp(obj({ y }))), multi(ne(obj({ y })))));
  E("C12", multi(seq(a(), fl)), ["v0", "-f", "v1"], 5, eqg(multi(grp(seq(a(), fl))), multi(grp(seq(grp(a()), grp(fl))))));
  E("C12", multi(cond(oc(["on"], "-k"), { on: x })), ["-k on", "-x v0"], 5, eqg(multi(grp(cond(oc(["on"], "-k"), { on: grp(x) })))));
  E("C12", multi(or(o("-x"), o("-y"))), ["-x v0", "-y v1"], 4, eqg(multi(grp(or(o("-x"), o("-y")))), multi(or(grp(o("-x")), grp(o("-y"))))));
}

// --- C31 -------------------------------------------------------------------
for (const fmt of ["equalsOnly", "nextToken", "greedy"]) {
  E("C31", obj({ v: opt(f("-v")), x: opt(o("--x")), r: pass(fmt) }), ["-v", "--x v0", "--x=v1", "--u=w2", "--u", "w3", "--"], 4);
  E("C31", obj({ p: opt(a()), r: pass(fmt), m: multi(o("-m")) }), ["w0", "-m v1", "--u", "--u=w2", "-q", "--"], 4);
  E("C31", merge(obj({ v: opt(f("-v")) }), obj({ r: pass(fmt) }), obj({ q: multi(a(), 0, 1) })), ["-v", "--u", "--u=w1", "w2", "-vu", "--"], 4);
  E("C31", cmd("go", obj({ v: b("-v"), r: pass(fmt) })), ["go", "-v", "--u=w1", "--u", "w2"], 4);
  E("C31", or(obj({ v: f("-v"), r: pass(fmt) }), obj({ w: f("-w"), s: pass(fmt) })), ["-v", "-w", "--u=w1", "--u", "w2"], 4);
  E("C31", tup(opt(o("-x")), pass(fmt)), ["-x v0", "--u=w1", "--u", "w2", "--"], 4);
  E("C31", seq(opt(o("-x")), pass(fmt), multi(a())), ["-x v0", "--u=w1", "--u", "w2", "--"], 4);
  E("C31", obj({ n: nf(["--yes"], ["--no"]), i: opt(oi(0, 9, "-i")), r: pass(fmt) }), ["--yes", "--no", "-i 3", "-i bad", "--yes=1", "--u=w1"], 4);
}

// --- C32 -------------------------------------------------------------------
const once = (...gs: string[]) => P("once", { gs });
E("C32", obj({ x: opt(o("-x", "--xx")), f: b("-f", "--ff"), g: opt(f("-g", "--gg")) }), ["-x v0||x", "--xx=v1||x", "-f||f", "--ff||f", "-g||g", "--gg||g", "-fg"], 4, once("x", "f", "g"));
E("C32", obj({ n: nf(["--yes", "-y"], ["--no", "-n"]), r: opt(a()), m: multi(o("-m")) }), ["--yes||n", "-n||n", "-y||n", "-yn", "v0||r", "v1||r", "-m v2"], 4, once("n", "r"));
E("C32", tup(opt(o("-x", "--xx")), b("-f"), a()), ["-x v0||x", "--xx=v1||x", "-f||f", "-ff", "v2||r", "v3||r", "--"], 4, once("x", "f", "r"));
E("C32", merge(obj({ x: dfl(o("-x", "/X"), "D") }), obj({ y: o("-y", "+y"), p: opt(b("-p")) })), ["-x v0||x", "/X:v1||x", "-y v2||y", "+y v3||y", "-p||p"], 4, once("x", "y", "p"));
E("C32", seq(opt(o("-x")), b("-f"), opt(a())), ["-x v0||x", "-x v1||x", "-f||f", "v2||r", "v3||r"], 5, once("x", "f", "r"));
E("C32", or(obj({ x: o("-x"), s: opt(o("-s")) }), obj({ y: o("-y"), s: opt(o("-s")) })), ["-x v0||x", "-y v1||y", "-s v2||s", "-s v3||s"], 5, once("x", "y", "s"));
E("C32", lm(obj({ x: o("-x"), s: opt(o("-s")) }), obj({ x: o("-x"), y: o("-y") })), ["-x v0||x", "-y v1||y", "-s v2||s", "-s v3||s"], 5, once("x", "y", "s"));
E("C32", cond(oc(["on", "off"], "-k"), { on: obj({ x: opt(o("-x")) }), off: obj({ y: b("-y") }) }, obj({ d: opt(o("-d")) })), ["-k on||k", "-k off||k", "-x v0||x", "-y||y", "-d v1||d"], 4, once("k", "x", "y", "d"));
E("C32", obj({ c: opt(cmd("go", obj({ x: opt(o("-x")), f: b("-f") }))), v: opt(f("-v")) }), ["go||go", "-x v0||x", "-f||f", "-v||v", "-fv"], 5, once("go", "x", "f", "v"));
E("C32", obj({ x: ne(opt(o("-x"))), m: map(opt(grp(o("-m")))), y: opt(map(b("-y"))) }), ["-x v0||x", "-x=v1", "-m v2||m", "-m v3||m", "-y||y"], 4, once("x", "m", "y"));
E("C32", concat(tup(opt(o("-x")), b("-f")), tup(opt(a()), opt(o("-y")))), ["-x v0||x", "-f||f", "v1||r", "-y v2||y"], 5, once("x", "f", "r", "y"));

// --- C33 -------------------------------------------------------------------
const req = (...gs: string[]) => P("req", { gs });
E("C33", obj({ x: o("-x"), f: f("-f"), y: opt(o("-y")), r: a() }), ["-x v0||x", "-f||f", "-y v1", "v2||r", "--"], 5, req("x", "f", "r"));
E("C33", tup(o("-x"), multi(a(), 1), opt(f("-f"))), ["-x v0||x", "v1||r", "-f", "--"], 5, req("x", "r"));
E("C33", merge(obj({ x: o("-x"), y: opt(o("-y")) }), obj({ n: nf(["--yes"], ["--no"]) }), obj({ r: multi(a(), 1, 2) })), ["-x v0||x", "-y v1", "--yes||n", "--no||n", "v2||r"], 4, req("x", "n", "r"));
E("C33", cmd("go", obj({ x: o("-x"), c: cmd("up", obj({ y: o("-y"), z: b("-z") })) })), ["go||go", "up||up", "-x v0||x", "-y v1||y", "-z"], 5, req("go", "up", "x", "y"));
E("C33", seq(o("-x"), opt(f("-f")), ac("red", "green"), multi(o("-m"), 1)), ["-x v0||x", "-f", "red||c", "-m v1||m"], 5, req("x", "c", "m"));
E("C33", cond(oc(["on", "off"], "-k"), { on: obj({ x: o("-x") }), off: obj({ y: o("-y"), z: opt(f("-z")) }) }), ["-k on||k", "-k off||k", "-x v0||b", "-y v1||b", "-z"], 4, req("k", "b"));
E("C33", or(obj({ x: o("-x"), y: o("-y") }), obj({ x: o("-x"), z: o("-z") })), ["-x v0||x", "-y v1||b", "-z v2||b"], 5, req("x", "b"));
E("C33", lm(obj({ x: o("-x"), y: o("-y") }), obj({ x: o("-x"), z: o("-z") })), ["-x v0||x", "-y v1||b", "-z v2||b"], 5, req("x", "b"));
E("C33", obj({ i: oi(0, 9, "-i"), c: ac("red"), o: opt(obj({ p: o("-p"), q: o("-q") })) }), ["-i 5||i", "-i bad", "-i", "red||c", "-p v0", "-q v1"], 4, req("i", "c"));
E("C33", grp(map(obj({ x: map(grp(o("-x"))), m: multi(o("-m"), 2, 3) }))), ["-x v0||x", "-m v1||m", "-m v2||m"], 5, req("x", "m"));
E("C33", concat(tup(o("-x"), a()), tup(f("-f"), opt(o("-y")))), ["-x v0||x", "v1||r", "-f||f", "-y v2"], 5, req("x", "r", "f"));
E("C33", multi(obj({ x: o("-x"), y: o("-y") }), 1), ["-x v0||x", "-y v1||y", "-x v2||x"], 5, req("x", "y"));
E("C33", or(cmd("go", o("-x")), cmd("up", tup(a(), a()))), ["go||c", "up||c", "-x v0", "v1", "v2"], 5, req("c"));

export const catalog = out;
