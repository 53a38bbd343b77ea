------------------------------ MODULE OptiqueMC ------------------------------
(***************************************************************************)
(* Small-scope exploration.  ENTRIES is a file of grammars, each with an   *)
(* alphabet of chunks (indivisible token runs), a bound on the number of   *)
(* chunks and the declarative predicates that must hold for it.  TLC       *)
(* explores every command line of the bound, as a state machine that types *)
(* one chunk at a time; in each state the predicates are evaluated on the  *)
(* outcome given by Optique, and the outcome is exported so that it can be *)
(* replayed on the implementation.                                         *)
(***************************************************************************)
EXTENDS Optique, IOUtils, Json

Entries == ndJsonDeserialize(IOEnv.ENTRIES)

(* annotated once *)
GS == [i \in 1..Len(Entries) |-> AnnRoot(Entries[i].g, FALSE)]
GA == [i \in 1..Len(Entries) |-> AnnRoot(Entries[i].g, TRUE)]
AL == [i \in 1..Len(Entries) |->
         [p \in 1..Len(Entries[i].pr) |->
            [j \in 1..Len(Entries[i].pr[p].alts) |-> AnnRoot(Entries[i].pr[p].alts[j], FALSE)]]]
ASSUME \A i \in 1..Len(Entries) : ~Rejected(GS[i])

VARIABLES e, s, out
vars == <<e, s, out>>

O(c) == IF c.ok THEN [k |-> "ok", v |-> c.val] ELSE [k |-> "fail", v |-> VU]
OutEq(a, b) == a.k = b.k /\ (a.k # "ok" \/ ValEq(a.v, b.v))
RunO(g, argv) == O(Run(g, argv))

Toks(i, x) == FlattenSeq([p \in 1..Len(x) |-> Entries[i].ch[x[p]].t])
C(i, c) == Entries[i].ch[c]

MInit == /\ e \in 1..Len(Entries) /\ s = <<>> /\ out = RunO(GS[e], <<>>)
MNext == /\ Len(s) < Entries[e].max
         /\ \E c \in 1..Len(Entries[e].ch) :
              /\ s' = Append(s, c)
              /\ out' = RunO(GS[e], Toks(e, s'))
         /\ UNCHANGED e
MSpec == MInit /\ [][MNext]_vars

----------------------------------------------------------------------------
(* Declarative predicates *)
Argv == Toks(e, s)
Vals == FlattenSeq([p \in 1..Len(s) |-> C(e, s[p]).v])
CountIn(x, q) == Cardinality({i \in 1..Len(q) : q[i] = x})
HasT == \E p \in 1..Len(s) : C(e, s[p]).k = "t"
FirstT == CHOOSE p \in 1..Len(s) : C(e, s[p]).k = "t" /\ \A q \in 1..(p - 1) : C(e, s[q]).k # "t"
CountG(g) == Cardinality({p \in 1..Len(s) : C(e, s[p]).g = g})
Fld(v, key) == LET J == {j \in 1..Len(v.f) : v.f[j].n = key} IN v.f[CHOOSE j \in J : TRUE].v

(* every supplied value occurs in the result exactly as often as on the    *)
(* command line; after the terminator it is the whole token that counts    *)
AcctVals == IF ~HasT THEN Vals
            ELSE FlattenSeq([p \in 1..(FirstT - 1) |-> C(e, s[p]).v]) \o Toks(e, SelectSeq(DropN(s, FirstT), LAMBDA c : C(e, c).k # "c"))
PAcct == out.k = "ok" => \A x \in ToSet(AcctVals) : CountStr(out.v, x) = CountIn(x, AcctVals)

SwapAt(q, i) == [p \in 1..Len(q) |-> IF p = i THEN q[i + 1] ELSE IF p = i + 1 THEN q[i] ELSE q[p]]
Swappable(x, y) == /\ x.k # "t" /\ y.k # "t"
                   /\ ~(x.k = "p" /\ y.k = "p")
                   /\ ~(x.g # "" /\ x.g = y.g)
PPerm == \A i \in 1..(Len(s) - 1) :
           (s[i] < s[i + 1] /\ Swappable(C(e, s[i]), C(e, s[i + 1])))
             => OutEq(out, RunO(GS[e], Toks(e, SwapAt(s, i))))

Canon(i, c) == IF C(i, c).g = "" THEN c
               ELSE CHOOSE d \in 1..c : C(i, d).g = C(i, c).g /\ \A b \in 1..(d - 1) : C(i, b).g # C(i, c).g
PSame == LET q == [p \in 1..Len(s) |-> Canon(e, s[p])]
         IN q = s \/ OutEq(out, RunO(GS[e], Toks(e, q)))

RECURSIVE SubstV(_, _)
SubstV(v, m) ==
  CASE v.k = "a" -> VA([i \in 1..Len(v.e) |-> SubstV(v.e[i], m)])
    [] v.k = "o" -> VO([i \in 1..Len(v.f) |-> [n |-> v.f[i].n, v |-> SubstV(v.f[i].v, m)]])
    [] v.k = "s" -> IF v.v \in DOMAIN m THEN VS(m[v.v]) ELSE v
    [] OTHER     -> v
PTerm ==
  IF ~HasT THEN TRUE
  ELSE LET f == FirstT
           head == Toks(e, SubSeq(s, 1, f))
           tail == Toks(e, DropN(s, f))
           D == {i \in 1..Len(tail) : StartsWith(tail[i], "-") /\ Len(tail[i]) > 1}
           Ph(i) == "T" \o ToString(i)
           tail2 == [i \in 1..Len(tail) |-> IF i \in D THEN Ph(i) ELSE tail[i]]
           m == [x \in {Ph(i) : i \in D} |-> tail[CHOOSE i \in D : Ph(i) = x]]
           r == RunO(GS[e], head \o tail2)
       IN \/ f > 1 /\ C(e, s[f - 1]).k = "d"
          \/ D = {}
          \/ OutEq(out, IF r.k = "ok" THEN [k |-> "ok", v |-> SubstV(r.v, m)] ELSE r)

PAlts(p) == out.k = "ok" => \E j \in 1..Len(AL[e][p]) : OutEq(out, RunO(AL[e][p][j], Argv))

PLongest(p) ==
  LET Whole(j) == LET r == Parse(AL[e][p][j], Init(AL[e][p][j]), Argv, FALSE) IN r.ok /\ r.buf = <<>>
      W == {j \in 1..Len(AL[e][p]) : Whole(j)}
  IN Argv = <<>> \/ W = {} \/ OutEq(out, RunO(AL[e][p][CHOOSE j \in W : \A i \in W : j <= i], Argv))

PDflt(q) == out.k = "ok" =>
  LET present == \E g \in ToSet(q.gs) : CountG(g) > 0
      isD == ValEq(Fld(out.v, q.key), VS(q.dv))
  IN isD = ~present

PMultiList(q) == out.k = "ok" =>
  LET xs == FlattenSeq([p \in 1..Len(s) |-> IF C(e, s[p]).g = q.gs[1] THEN C(e, s[p]).v ELSE <<>>])
  IN /\ ValEq(Fld(out.v, q.key), VA([i \in 1..Len(xs) |-> VS(xs[i])]))
     /\ Len(xs) >= q.lo /\ (q.hi < 0 \/ Len(xs) <= q.hi)

PSplit(p) == out.k = "ok" =>
  \E c \in 0..Len(Argv) :
     LET x == Run(AL[e][p][1], SubSeq(Argv, 1, c))
         y == Run(AL[e][p][2], DropN(Argv, c))
     IN x.ok /\ y.ok /\ ValEq(out.v, VA(<<x.val, y.val>>))

PDisc(q) == out.k = "ok" =>
  LET ds == SelectSeq([p \in 1..Len(s) |-> C(e, s[p]).g], LAMBDA g : g \in ToSet(q.gs))
  IN ValEq(out.v.e[1], IF ds = <<>> THEN VU ELSE VS(ds[1])) /\ Len(ds) <= 1

PEqg(p) == \A j \in 1..Len(AL[e][p]) : OutEq(out, RunO(AL[e][p][j], Argv))

BeforeT == IF HasT THEN SubSeq(s, 1, FirstT - 1) ELSE s
POnce(q) == (\E g \in ToSet(q.gs) : Cardinality({p \in 1..Len(BeforeT) : C(e, s[p]).g = g}) > 1) => out.k # "ok"
PReq(q)  == (out.k = "ok" /\ ~HasT) => \A g \in ToSet(q.gs) : CountG(g) > 0

Holds(p) ==
  LET q == Entries[e].pr[p]
  IN CASE q.p = "acct"    -> PAcct
       [] q.p = "perm"    -> PPerm
       [] q.p = "same"    -> PSame
       [] q.p = "term"    -> PTerm
       [] q.p = "alts"    -> PAlts(p)
       [] q.p = "longest" -> PLongest(p)
       [] q.p = "dflt"    -> PDflt(q)
       [] q.p = "multi"   -> PMultiList(q)
       [] q.p = "split"   -> PSplit(p)
       [] q.p = "disc"    -> PDisc(q)
       [] q.p = "eqg"     -> PEqg(p)
       [] q.p = "once"    -> POnce(q)
       [] q.p = "req"     -> PReq(q)

Rep(tag, x) == PrintT("@@" \o ToJson([tag |-> tag, e |-> e, s |-> s] @@ x))

(* always true: evaluates the predicates and exports the outcome *)
Examine ==
  /\ \A p \in 1..Len(Entries[e].pr) :
        IF Holds(p) THEN TRUE ELSE Rep("PRED", [p |-> Entries[e].pr[p].p, out |-> out])
  /\ LET ao == IF Entries[e].dual THEN RunO(GA[e], Argv) ELSE out
     IN Rep("OUT", IF OutEq(ao, out) THEN [out |-> out] ELSE [out |-> out, aout |-> ao])
=============================================================================
