---------------------------- MODULE Dependencies ----------------------------
(***************************************************************************)
(* Dependent options (C13).  A grammar has sources and dependents.         *)
(*   source    [w : layers, outermost first]                               *)
(*   dependent [on : source numbers, dv : their declared defaults,         *)
(*              thr : a source value for which the factory throws (or 0),  *)
(*              w : layers]                                                *)
(* layers: optional, dflt (dv), map, multi, env (val, dv: a binding that   *)
(* has the value val, or none (-1), and the default dv, or none (-1)).     *)
(* Parsing is deferred: while tokens are read, sources are registered and  *)
(* the raw input of dependents is kept; when the line is complete, every   *)
(* kept input is given to the parser built from the registered values.     *)
(* One behaviour = one command line, occurrence by occurrence; tokens of   *)
(* an entry are [who : "s"/"d", i : number, v : value].                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json, SequencesExt

Entries == ndJsonDeserialize(IOEnv.ENTRIES)

VARIABLES e, line, reg, raw, ph
vars == <<e, line, reg, raw, ph>>
G == Entries[e]
NS == Len(G.srcs)
ND == Len(G.deps)

Init == /\ e \in 1..Len(Entries) /\ line = <<>> /\ ph = "read"
        /\ reg = [i \in 1..Len(Entries[e].srcs) |-> 0]
        /\ raw = [i \in 1..Len(Entries[e].deps) |-> <<>>]

HasLayer(w, t) == \E i \in 1..Len(w) : w[i].t = t
Times(x) == Cardinality({i \in 1..Len(line) : G.tokens[line[i]].who = x.who /\ G.tokens[line[i]].i = x.i})
LayersOf(x) == IF x.who = "s" THEN G.srcs[x.i].w ELSE G.deps[x.i].w
Read == /\ ph = "read" /\ Len(line) < G.max
        /\ \E k \in 1..Len(G.tokens) :
             /\ ~\E i \in 1..Len(line) : line[i] = k
             /\ LET x == G.tokens[k] IN
                /\ Times(x) = 0 \/ HasLayer(LayersOf(x), "multi")
                /\ line' = Append(line, k)
                /\ reg' = IF x.who = "s" /\ reg[x.i] # 9 THEN [reg EXCEPT ![x.i] = x.v] ELSE reg
                /\ raw' = IF x.who = "d" THEN [raw EXCEPT ![x.i] = Append(@, x.v)] ELSE raw
        /\ UNCHANGED <<e, ph>>
Finish == ph = "read" /\ ph' = "done" /\ UNCHANGED <<e, line, reg, raw>>
Next == Read \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- the value of a source ---- *)
(* what a source that is not on the command line amounts to:               *)
(*   s = the source value (0: none), f = the field: "bad", "undef",        *)
(*   "list" or a number of maps applied to a value                         *)
(* no binding inside has a value: a fallback is used because nothing matched *)
Unbound(w) == \A i \in 1..Len(w) : w[i].t = "env" => w[i].val = -1 /\ w[i].dv = -1
RECURSIVE Absent(_)
Absent(w) ==
  IF w = <<>> THEN [ok |-> FALSE, s |-> 0, f |-> "miss", v |-> 0, m |-> 0]
  ELSE LET l == w[1] IN LET b == Absent(Tail(w)) IN
    CASE l.t = "optional" -> IF Unbound(Tail(w)) THEN [ok |-> TRUE, s |-> 0, f |-> "undef", v |-> 0, m |-> 0] ELSE b
      [] l.t = "dflt" -> IF Unbound(Tail(w))
                         THEN [ok |-> TRUE, s |-> IF HasLayer(Tail(w), "map") THEN 0 ELSE l.dv, f |-> "val", v |-> l.dv, m |-> 0]
                         ELSE b
      [] l.t = "map" -> IF b.ok THEN [b EXCEPT !.m = @ + 1] ELSE b
      [] l.t = "multi" -> [ok |-> TRUE, s |-> 0, f |-> "list", v |-> 0, m |-> 0]
      [] l.t = "env" -> IF l.val = 9 THEN [ok |-> FALSE, s |-> 0, f |-> "bad", v |-> 0, m |-> 0]
                        ELSE IF l.val # -1 THEN [ok |-> TRUE, s |-> IF HasLayer(Tail(w), "map") THEN 0 ELSE l.val, f |-> "val", v |-> l.val, m |-> 0]
                        ELSE IF l.dv # -1 THEN [ok |-> TRUE, s |-> IF HasLayer(Tail(w), "map") THEN 0 ELSE l.dv, f |-> "val", v |-> l.dv, m |-> 0]
                        ELSE b
      [] OTHER -> b
(* two fallbacks around nothing: which of them gives its value is left open *)
IsF(l) == l.t \in {"optional", "dflt"}
Open(w) == \E i, j \in 1..Len(w) : i < j /\ IsF(w[i]) /\ IsF(w[j]) /\ Unbound(SubSeq(w, i, Len(w)))
(* a value found below a map without input: whether dependents see it is left open *)
OpenMap(w) == \E i, j \in 1..Len(w) : i < j /\ w[i].t = "map" /\ (w[j].t = "dflt" \/ (w[j].t = "env" /\ (w[j].val # -1 \/ w[j].dv # -1)))
Given(i) == reg[i] # 0
AbsentOf(i) == Absent(G.srcs[i].w)
SourceOk(i) == IF Given(i) THEN reg[i] # 9 ELSE AbsentOf(i).ok
SourceValue(i) == IF Given(i) THEN reg[i] ELSE AbsentOf(i).s

(* ---- dependents ---- *)
ValuesFor(d) == [k \in 1..Len(d.on) |-> LET s == SourceValue(d.on[k]) IN IF s # 0 THEN s ELSE d.dv[k]]
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Accepts(d, vs, x) == ~(d.thr # 0 /\ \E k \in 1..Len(vs) : vs[k] = d.thr) /\ (x + Sum(vs)) % 3 # 0
RECURSIVE AbsentDep(_)
AbsentDep(w) ==
  IF w = <<>> THEN [f |-> "miss", v |-> 0, m |-> 0]
  ELSE LET l == w[1] IN LET b == AbsentDep(Tail(w)) IN
    CASE l.t = "optional" -> [f |-> "undef", v |-> 0, m |-> 0]
      [] l.t = "dflt" -> [f |-> "val", v |-> l.dv, m |-> 0]
      [] l.t = "map" -> IF b.f # "miss" THEN [b EXCEPT !.m = @ + 1] ELSE b
      [] l.t = "multi" -> [f |-> "list", v |-> 0, m |-> 0]
      [] OTHER -> b
DepOk(i) == LET d == G.deps[i] IN
  IF raw[i] = <<>> THEN AbsentDep(d.w).f # "miss"
  ELSE \A k \in 1..Len(raw[i]) : Accepts(d, ValuesFor(d), raw[i][k])

Success == (\A i \in 1..NS : SourceOk(i)) /\ (\A i \in 1..ND : DepOk(i))
Field(i) == IF Given(i) THEN [f |-> "given", v |-> reg[i], m |-> 0] ELSE LET a == AbsentOf(i) IN [f |-> a.f, v |-> a.v, m |-> a.m]
DepField(i) == IF raw[i] = <<>> THEN AbsentDep(G.deps[i].w) @@ [vs |-> <<>>, xs |-> <<>>]
               ELSE [f |-> "given", v |-> 0, m |-> 0, vs |-> ValuesFor(G.deps[i]), xs |-> raw[i]]

(* ---- properties ---- *)
Of(who, i) == SelectSeq(line, LAMBDA k : G.tokens[k].who = who /\ G.tokens[k].i = i)
(* every dependent is judged by the final source values, wherever it stood *)
FinalValues == \A i \in 1..NS :
  LET q == Of("s", i) IN
    /\ q = <<>> => reg[i] = 0
    /\ q # <<>> => reg[i] = IF \E k \in 1..Len(q) : G.tokens[q[k]].v = 9 THEN 9 ELSE G.tokens[q[Len(q)]].v
Deferred == \A i \in 1..ND : raw[i] = [k \in 1..Len(Of("d", i)) |-> G.tokens[Of("d", i)[k]].v]
InvalidSourceFails == (\E i \in 1..NS : reg[i] = 9) => ~Success
Total == Success => \A i \in 1..ND : raw[i] # <<>> => DepField(i).vs = ValuesFor(G.deps[i])

Export == ph = "done" =>
  PrintT("@@" \o ToJson([e |-> e, line |-> line, ok |-> Success,
    open |-> (\E i \in 1..NS : ~Given(i) /\ OpenMap(G.srcs[i].w) /\ \E j \in 1..ND : raw[j] # <<>> /\ \E k \in 1..Len(G.deps[j].on) : G.deps[j].on[k] = i) \/ (\E i \in 1..NS : ~Given(i) /\ Open(G.srcs[i].w)) \/ (\E i \in 1..ND : raw[i] = <<>> /\ Open(G.deps[i].w)),
    late |-> \E i \in 1..NS : ~Given(i) /\ AbsentOf(i).f = "val",
    s |-> IF Success THEN [i \in 1..NS |-> Field(i)] ELSE <<>>,
    d |-> IF Success THEN [i \in 1..ND |-> DepField(i)] ELSE <<>>]))
=============================================================================
