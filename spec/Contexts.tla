------------------------------ MODULE Contexts ------------------------------
(***************************************************************************)
(* The life of source contexts around one run (C16): phase-one collection, *)
(* an optional first pass, phase-two collection from two-pass contexts,    *)
(* the final run, and disposal, with a fault possible at every call.       *)
(*                                                                         *)
(* A context type is a record                                              *)
(*   two    two-pass?             asy    answers with a promise?           *)
(*   d1, d2 data of each phase (sets of key names, value names the source) *)
(*   int    adds internal data for key "B"                                 *)
(*   fault  "none" | "p1" | "p2"  the call that throws                     *)
(*   disp   "none" | "sync" | "async" | "both" | "lying" disposers;        *)
(*          lying: its only disposer is the async one but returns nothing  *)
(*   df     the disposer throws                                            *)
(* A command line record: kind (what the runner makes of it), seed (what a *)
(* first pass knows), seedk = FALSE when a first pass yields nothing.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils, Json, SequencesExt

Cfg == ndJsonDeserialize(IOEnv.CFG)[1]
Types == Cfg.types
Lines == Cfg.lines
Apis == Cfg.apis                        \* [sync |-> BOOLEAN, nm |-> ...]

VARIABLES L, line, api, setup, pc, i, ev, d1, d2, prim, derr, res
vars == <<L, line, api, setup, pc, i, ev, d1, d2, prim, derr, res>>

N == Len(L)
C(j) == Types[L[j]]
SyncApi == Apis[api].sync
Two == \E j \in 1..N : C(j).two
None == [t |-> "none", id |-> ""]
Err(id) == [t |-> "err", id |-> id]
S(x) == ToString(x)

(* lists: everything up to length 2 over all types, length 3 over the first few *)
Init ==
  /\ \/ L \in BoundedSeq(1..Len(Types), 2)
     \/ \E a, b, c \in 1..Cfg.few : L = <<a, b, c>>
     \/ \E q \in 1..Len(Cfg.lists) : L = Cfg.lists[q]
  /\ api \in 1..Len(Apis)
  /\ line \in IF Len(L) = 0 THEN {} ELSE 1..Len(Lines)
  /\ setup = "fine"
  /\ pc = "validate" /\ i = 1 /\ ev = <<>> /\ d1 = <<>> /\ d2 = <<>>
  /\ prim = None /\ derr = <<>> /\ res = None
(* two ill-formed lists: duplicate ids, unknown phase *)
InitBad ==
  /\ setup \in {"dup", "phase"}
  /\ \E a, b \in 1..Cfg.few : L = <<a, b>>
  /\ api \in 1..Len(Apis) /\ line = 1
  /\ pc = "validate" /\ i = 1 /\ ev = <<>> /\ d1 = <<>> /\ d2 = <<>>
  /\ prim = None /\ derr = <<>> /\ res = None

E(x) == ev' = Append(ev, x)
Evt(k, j) == [k |-> k, c |-> j, how |-> ""]
FailRun(id) == prim' = Err(id) /\ pc' = "dispose" /\ i' = 1 /\ UNCHANGED <<d1, d2, derr, res>>
Fixed == UNCHANGED <<L, line, api, setup>>

Validate == /\ pc = "validate" /\ Fixed
            /\ IF setup # "fine" THEN FailRun("type") /\ UNCHANGED ev
               ELSE pc' = "p1" /\ UNCHANGED <<i, ev, d1, d2, prim, derr, res>>
Data(set, int, nm) == [A |-> IF "A" \in set THEN nm ELSE "-", B |-> IF "B" \in set THEN nm ELSE IF int THEN nm \o "int" ELSE "-"]
ToSetOf(q) == {q[k] : k \in 1..Len(q)}

Pick(ds, k) == LET H == {j \in 1..Len(ds) : ds[j][k] # "-"}
               IN IF H = {} THEN "-" ELSE ds[CHOOSE j \in H : \A m \in H : j <= m][k]
P1 == /\ pc = "p1" /\ Fixed
      /\ IF i > N THEN pc' = "probe" /\ i' = 1 /\ UNCHANGED <<ev, d1, d2, prim, derr, res>>
         ELSE /\ E(Evt("p1", i))
              /\ IF C(i).fault = "p1" /\ ~(SyncApi /\ C(i).asy) THEN FailRun("p1:" \o S(i))
                 ELSE IF SyncApi /\ C(i).asy THEN FailRun("type")
                 ELSE /\ d1' = Append(d1, Data(ToSetOf(C(i).d1), C(i).int, "c" \o S(i) \o "p1"))
                      /\ i' = i + 1 /\ UNCHANGED <<pc, d2, prim, derr, res>>
(* requests are answered without a second phase when metas are configured *)
Probe == /\ pc = "probe" /\ Fixed
         /\ pc' = IF ~Two \/ (Apis[api].metas /\ Lines[line].request) \/ ~Lines[line].seedk THEN "run" ELSE "p2"
         /\ d2' = IF pc' = "run" THEN d1 ELSE <<>>
         /\ UNCHANGED <<i, ev, d1, prim, derr, res>>
P2 == /\ pc = "p2" /\ Fixed
      /\ IF i > N THEN pc' = "run" /\ i' = 1 /\ UNCHANGED <<ev, d1, d2, prim, derr, res>>
         ELSE IF ~C(i).two
         THEN d2' = Append(d2, d1[i]) /\ i' = i + 1 /\ UNCHANGED <<pc, ev, d1, prim, derr, res>>
         ELSE /\ E([Evt("p2", i) EXCEPT !.how = Pick(d1, "A") \o "/" \o Pick(d1, "B")])
              /\ IF C(i).fault = "p2" THEN FailRun("p2:" \o S(i))
                 ELSE /\ d2' = Append(d2, Data(ToSetOf(C(i).d2), C(i).int, "c" \o S(i) \o "p2"))
                      /\ i' = i + 1 /\ UNCHANGED <<pc, d1, prim, derr, res>>
(* the first context that has a key decides it *)
Final(k) == Pick(d2, k)
Kind == IF Apis[api].metas THEN Lines[line].kind ELSE Lines[line].plain
RunIt == /\ pc = "run" /\ Fixed
         /\ IF Kind = "value"
            THEN /\ res' = [t |-> "value", id |-> Final("A") \o "/" \o Final("B")]
                 /\ pc' = "dispose" /\ i' = 1 /\ UNCHANGED <<ev, d1, d2, prim, derr>>
            ELSE \* a callback, which may throw
                 \E thr \in ToSetOf(Apis[api].throws) :
                   /\ E([k |-> "cb", c |-> 0, how |-> Kind \o (IF thr THEN "!" ELSE "")])
                   /\ pc' = "dispose" /\ i' = 1
                   /\ IF thr THEN prim' = Err("cb") /\ UNCHANGED <<d1, d2, derr, res>>
                      ELSE res' = [t |-> "cb", id |-> Kind] /\ UNCHANGED <<d1, d2, derr, prim>>
(* how context j is disposed of *)
How(j) == CASE C(j).disp = "none" -> "none"
            [] C(j).disp = "sync" -> "sync"
            [] C(j).disp \in {"async", "lying"} -> "async"
            [] C(j).disp = "both" -> IF SyncApi THEN "sync" ELSE "async"
Dispose ==
  /\ pc = "dispose" /\ Fixed
  /\ IF i > N THEN pc' = "done" /\ UNCHANGED <<i, ev, d1, d2, prim, derr, res>>
     ELSE /\ IF How(i) = "none" THEN UNCHANGED ev ELSE E([k |-> "d", c |-> i, how |-> How(i)])
          /\ derr' = IF How(i) = "none" THEN derr
                     ELSE IF C(i).df /\ ~(SyncApi /\ C(i).disp = "async") THEN Append(derr, "d:" \o S(i))
                     ELSE IF SyncApi /\ C(i).disp = "async" THEN Append(derr, "type")
                     ELSE derr
          /\ i' = i + 1 /\ UNCHANGED <<pc, d1, d2, prim, res>>
Next == Validate \/ P1 \/ Probe \/ P2 \/ RunIt \/ Dispose
Spec == (Init \/ InitBad) /\ [][Next]_vars

(* ---- declarative ---- *)
Cnt(k, j) == Cardinality({x \in 1..Len(ev) : ev[x].k = k /\ ev[x].c = j})
Done == pc = "done"
OnceEach == \A j \in 1..N : Cnt("p1", j) <= 1 /\ Cnt("p2", j) <= 1 /\ Cnt("d", j) <= 1
AllAsked == (Done /\ prim.t = "none") => \A j \in 1..N : Cnt("p1", j) = 1
AllDisposed == Done => \A j \in 1..N : C(j).disp = "none" \/ Cnt("d", j) = 1
TwoPassTwice == (Done /\ prim.t = "none" /\ res.t = "value") => \A j \in 1..N : Cnt("p2", j) = IF C(j).two THEN 1 ELSE 0
DisposeLast == \A x, y \in 1..Len(ev) : ev[x].k = "d" /\ ev[y].k # "d" => y < x
InOrder == \A x, y \in 1..Len(ev) : (x < y /\ ev[x].k = ev[y].k /\ ev[x].k # "cb") => ev[x].c < ev[y].c
NoneLost == Done => (\A j \in 1..N : (C(j).fault = "p1" /\ Cnt("p1", j) = 1) => prim.t = "err")
                     /\ Cardinality({j \in 1..N : Cnt("d", j) = 1 /\ C(j).df}) <= Len(derr)
(* the outcome for each key: the first context whose last answer has it *)
Replaced == (Done /\ res.t = "value") =>
  LET LastAns(j) == IF C(j).two THEN ToSetOf(C(j).d2) ELSE ToSetOf(C(j).d1)
      H == {j \in 1..N : "A" \in LastAns(j)}
  IN (H = {}) <=> Final("A") = "-"
Inv == OnceEach /\ AllAsked /\ AllDisposed /\ TwoPassTwice /\ DisposeLast /\ InOrder /\ NoneLost /\ Replaced

Export == pc # "done" \/ PrintT("@@" \o ToJson([l |-> L, line |-> line, api |-> api, setup |-> setup, ev |-> ev, prim |-> prim, derr |-> derr, res |-> res]))
=============================================================================
