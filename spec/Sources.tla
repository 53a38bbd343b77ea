------------------------------- MODULE Sources -------------------------------
(***************************************************************************)
(* Values from several sources (C14, C15).  A stack is an option wrapped   *)
(* in layers, outermost first:                                             *)
(*   [t |-> "env"|"cfg"|"der", dv |-> default or -1]                        *)
(*   [t |-> "optional"], [t |-> "dflt", dv], [t |-> "map"], [t |-> "group"] *)
(* The option takes an integer in lo..hi (base "int"), a list of one or    *)
(* two of them (base "list"; values are encoded a or a * 1000 + b), or     *)
(* nothing from the command line at all (base "fail").                     *)
(* Sources: cli in {"none", "ok", "range", "bad"}; a source value per      *)
(* layer from a set of cases, transition by transition.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json, SequencesExt

Entries == ndJsonDeserialize(IOEnv.ENTRIES)
Cfg == ndJsonDeserialize(IOEnv.CFG)[1]

VARIABLES e, src, cli, ph
vars == <<e, src, cli, ph>>
Stack == Entries[e].stacks[1]
NL == Len(Stack)
EnvCases == {"none", "ok", "range", "bad", "dot", "dotrange", "dotbad", "okdot", "rangedot"}
DataCases == {"none", "ok", "range"}
CasesOf(l) == IF l.t = "env" THEN EnvCases ELSE IF l.t \in {"cfg", "der"} THEN DataCases ELSE {"none"}

Init == /\ e \in 1..Len(Entries) /\ src = <<>> /\ cli = "" /\ ph = "cli"
Choose == /\ ph = "cli" /\ ph' = "src" /\ UNCHANGED <<e, src>>
          /\ cli' \in IF Entries[e].fixed = <<>> THEN (IF Entries[e].base[1] = "fail" THEN {"none"} ELSE {"none", "ok", "range", "bad"}) ELSE {"fixed"}
Give == /\ ph = "src" /\ cli # "fixed" /\ Len(src) < NL
        /\ \E x \in CasesOf(Stack[Len(src) + 1]) : src' = Append(src, x)
        /\ UNCHANGED <<e, cli, ph>>
Ready == /\ ph = "src" /\ (cli = "fixed" \/ Len(src) = NL) /\ ph' = "done" /\ UNCHANGED <<e, src, cli>>
Next == Choose \/ Give \/ Ready
Spec == Init /\ [][Next]_vars

(* ---- values ---- *)
Ok(v) == [k |-> "ok", v |-> v]
Bad == [k |-> "bad", v |-> 0]
Miss == [k |-> "miss", v |-> 0]
Undef == -5
Mapped == 100000
CliV == 7
(* values are told apart by layer and source *)
Val(t, case, i) ==
  CASE case \in {"none"} -> -1
    [] case = "bad" -> -3                                    \* does not parse
    [] case = "dotbad" -> -3
    [] case \in {"range", "rangedot", "dotrange"} -> 99
    [] case = "dot" -> 20 + i
    [] OTHER -> (IF t = "env" THEN 10 ELSE IF t = "cfg" THEN 30 ELSE 40) + i
InRange(v) == v \in 1..60

(* does a value satisfy what the parser below requires?  Nothing is known  *)
(* behind map().                                                            *)
RECURSIVE Valid(_, _, _)
Valid(st, base, v) == IF st = <<>> THEN base = "fail" \/ InRange(v)
                      ELSE IF st[1].t = "map" THEN TRUE ELSE Valid(Tail(st), base, v)
Check(st, base, v) == IF v = -3 \/ ~Valid(st, base, v) THEN Bad ELSE Ok(v)

(* without a binding inside, a fallback is used as soon as nothing matched *)
Bound(st) == \E i \in 1..Len(st) : st[i].t \in {"env", "cfg", "der"}
(* ---- operational: nothing on the command line for this option ---- *)
RECURSIVE Eval(_, _, _, _)
Eval(st, base, sr, i) ==
  IF st = <<>> THEN Miss
  ELSE LET l == st[1]
           r == Tail(st)
           In == Eval(r, base, sr, i + 1)
       IN CASE l.t \in {"env", "cfg", "der"} ->
                 LET v == Val(l.t, sr[i], i)
                 IN IF v # -1 THEN Check(r, base, v)
                    ELSE IF l.dv # -1 THEN Check(r, base, l.dv)
                    ELSE In
            [] l.t = "optional" -> IF In.k = "miss" \/ ~Bound(r) THEN Ok(Undef) ELSE In
            [] l.t = "dflt" -> IF In.k = "miss" \/ ~Bound(r) THEN Ok(l.dv) ELSE In
            [] l.t = "map" -> IF In.k = "ok" THEN Ok(In.v + Mapped) ELSE In
            [] l.t = "group" -> In
Maps(st) == Cardinality({i \in 1..Len(st) : st[i].t = "map"})
One(st, base, sr, c) ==
  IF c \in {"range", "bad"} THEN Bad
  ELSE IF c = "ok" THEN Ok(CliV + Maps(st) * Mapped)
  ELSE Eval(st, base, sr, 1)
(* Two fallbacks around nothing: which of them gives its value is left open *)
(* (it depends on whether the enclosing parser visits the inner one).       *)
IsF(l) == l.t \in {"optional", "dflt"}
Open(st, base, sr, c) == c = "none" /\ \E i, j \in 1..Len(st) :
  /\ i < j /\ IsF(st[i]) /\ IsF(st[j])
  /\ \A k \in (i + 1)..(j - 1) : st[k].t \in {"env", "cfg", "der"} => Val(st[k].t, sr[k], k) = -1 /\ st[k].dv = -1
  /\ Eval(SubSeq(st, j + 1, Len(st)), base, sr, j + 1).k = "miss"
Opened == IF cli = "fixed"
          THEN \E j \in 1..Len(Entries[e].stacks) : Open(Entries[e].stacks[j], Entries[e].base[j], Entries[e].fixed[j].src, Entries[e].fixed[j].cli)
          ELSE Open(Stack, Entries[e].base[1], src, cli)
Outs == IF cli = "fixed"
        THEN [j \in 1..Len(Entries[e].stacks) |-> One(Entries[e].stacks[j], Entries[e].base[j], Entries[e].fixed[j].src, Entries[e].fixed[j].cli)]
        ELSE <<One(Stack, Entries[e].base[1], src, cli)>>

(* ---- declarative: a flat list of the candidates in priority order ---- *)
(* candidate: [v, chk |-> rest of the stack that must accept it, m |-> maps outside] *)
RECURSIVE Flat(_, _, _, _)
Flat(st, sr, i, m) ==
  IF st = <<>> THEN <<>>
  ELSE LET l == st[1]
           C(v) == [v |-> v, chk |-> Tail(st), m |-> m, src |-> l.t # "dflt" /\ l.t # "optional"]
           here == CASE l.t \in {"env", "cfg", "der"} ->
                          (IF Val(l.t, sr[i], i) # -1 THEN <<C(Val(l.t, sr[i], i))>> ELSE <<>>) \o (IF l.dv # -1 THEN <<C(l.dv)>> ELSE <<>>)
                     [] OTHER -> <<>>
           inner == IF l.t \in {"dflt", "optional"} /\ ~Bound(Tail(st)) THEN <<>> ELSE Flat(Tail(st), sr, i + 1, IF l.t = "map" THEN m + 1 ELSE m)
           last == CASE l.t = "dflt" -> <<C(l.dv)>>
                     [] l.t = "optional" -> <<C(Undef)>>
                     [] OTHER -> <<>>
       IN here \o inner \o last
Declared(st, base, sr, c) ==
  LET F == Flat(st, sr, 1, 0)
  IN IF c # "none" THEN One(st, base, sr, c)
     ELSE IF F = <<>> THEN Miss
     ELSE LET h == F[1]
          IN IF h.src /\ (h.v = -3 \/ ~Valid(h.chk, base, h.v)) THEN Bad ELSE Ok(h.v + h.m * Mapped)
Priority == ph # "done" \/ cli = "fixed" \/ LET o == Outs[1] d == Declared(Stack, Entries[e].base[1], src, cli) IN o = d
(* an invalid value never gives way: whenever the first candidate is bad the run fails *)
NoFallThrough == ph # "done" \/ cli = "fixed" \/ cli # "none"
  \/ LET F == Flat(Stack, src, 1, 0) IN (F # <<>> /\ F[1].src /\ F[1].v = -3) => Outs[1].k = "bad"

Export == ph # "done" \/ PrintT("@@" \o ToJson([e |-> e, src |-> src, cli |-> cli, open |-> Opened, out |-> Outs]))
=============================================================================
