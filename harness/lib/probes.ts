// Recorded defects of the implementation (see known_findings.json): the exact
// inputs and the outcome the property demands.  A probe that no longer fails
// prints nothing.
import type { Ast } from "./ast.ts";
import { a, b, cmd, cond, concat, dfl, f, grp, multi, o, obj, oc, opt, or, pass, seq, tup } from "./dsl.ts";
export interface Probe { key: string; g: Ast; argv: string[]; want: (r: any) => boolean }
const fails = (r: any) => r.k === "fail";
const undef = (r: any) => r.k === "ok" && r.v.k === "u";
const empty = (r: any) => r.k === "ok" && r.v.k === "a" && r.v.e.length === 0;
export const probes: Record<string, Probe[]> = {
  C07: [
    { key: "optional(tuple([flag,flag])) []", g: opt(tup(f("-a"), f("-b"))), argv: [], want: undef },
    { key: "optional(seq(flag,flag)) []", g: opt(seq(f("-a"), f("-b"))), argv: [], want: undef },
    { key: "optional(concat(tuple([flag]),tuple([flag]))) []", g: opt(concat(tup(f("-a")), tup(f("-b")))), argv: [], want: undef },
  ],
  C08: [
    { key: "multiple(tuple([tuple([flag]),tuple([flag])])) []", g: multi(tup(tup(f("-a")), tup(f("-b")))), argv: [], want: empty },
    { key: "multiple(command(go, optional(flag))) go go", g: multi(cmd("go", opt(f("-f")))), argv: ["go", "go"], want: (r) => r.k === "ok" && r.v.e.length === 2 },
    { key: "multiple(concat(tuple([flag]),tuple([flag]))) []", g: multi(concat(tup(f("-a")), tup(f("-b")))), argv: [], want: empty },
  ],
  C10: [
    { key: "default branch swallows --k=off", g: cond(oc(["on", "off"], "--k"), { on: obj({ x: opt(o("-x")) }), off: obj({ y: opt(o("-y")) }) }, obj({ d: opt(o("-d")), r: multi(a()) })), argv: ["-d", "v0", "--k=off"], want: fails },
  ],
  C31: [
    { key: "passThrough takes a repeated --x=", g: obj({ x: opt(o("--x")), r: pass("equalsOnly") }), argv: ["--x", "v0", "--x=v1"], want: fails },
    { key: "passThrough takes a repeated -v", g: obj({ v: opt(f("-v")), r: pass("nextToken") }), argv: ["-v", "-v"], want: fails },
  ],
  C32: [
    { key: "argument takes a repeated /X", g: obj({ x: opt(o("/X")), r: multi(a()) }), argv: ["/X", "v0", "/X", "v1"], want: fails },
    { key: "argument takes a repeated +x", g: obj({ x: opt(o("+x")), r: multi(a()) }), argv: ["+x", "v0", "+x", "v1"], want: fails },
  ],
};

/** inputs on which the asynchronous form is known to differ (C22) */
export const asyncProbes: { key: string; g: Ast; argv: string[] }[] = [
  { key: "object({k: or(multiple(argument), flag)}) []", g: obj({ k: or(multi(a()), f("-f")) }), argv: [] },
  { key: "optional(object({k: conditional(optional discriminator, default flag)})) []", g: opt(obj({ k: cond(oc(["on"], "-k"), { on: opt(o("-x")) }, f("-f")) })), argv: [] },
  { key: "conditional(withDefault(choice red), {red: flag-bool}, default bool) []", g: cond(dfl(oc(["red", "green"], "-l"), "red"), { red: b("-r") }, b("-d")), argv: [] },
  { key: "conditional(withDefault(choice y), {x: argument, y: multiple(argument)}) v0", g: cond(dfl(oc(["x", "y"], "--d"), "y"), { x: a(), y: multi(a()) }), argv: ["v0"] },
];
