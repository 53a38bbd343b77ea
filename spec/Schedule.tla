------------------------------ MODULE Schedule ------------------------------
(***************************************************************************)
(* Settlement schedules.  Asynchronous leaves of a parser issue steps; at  *)
(* any moment some are pending, and the environment decides which one to   *)
(* settle and how late (a microtask, or a turn of the event loop).  A      *)
(* schedule is the sequence of such decisions.  The abstract run below     *)
(* has a sequential spine (parse) and a concurrent phase (completion of    *)
(* the elements); the result is assembled by position, so it is the same   *)
(* for every schedule (Confluence); the exported schedules are replayed on *)
(* the real parsers.                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cfg == ndJsonDeserialize(IOEnv.CFG)[1]     \* [spine, conc, len]
Picks == {"first", "last"}
Lates == {"micro", "turn"}

VARIABLES pc, pend, done, sched
vars == <<pc, pend, done, sched>>

Spine == Cfg.spine
Conc == Cfg.conc
SInit == pc = 1 /\ pend = <<>> /\ done = [i \in 1..(Spine + Conc) |-> 0] /\ sched = <<>>
(* issue: the spine issues one step at a time, the concurrent phase all    *)
Issue == /\ pend = <<>> /\ pc <= Spine + Conc
         /\ IF pc <= Spine THEN pend' = <<pc>> /\ pc' = pc + 1
            ELSE pend' = [i \in 1..Conc |-> Spine + i] /\ pc' = Spine + Conc + 1
         /\ UNCHANGED <<done, sched>>
Settle == /\ pend # <<>> /\ Len(sched) < Cfg.len
          /\ \E p \in Picks, l \in Lates :
               /\ (Len(pend) = 1 => p = "first")
               /\ LET i == IF p = "first" THEN 1 ELSE Len(pend)
                  IN /\ done' = [done EXCEPT ![pend[i]] = pend[i]]      \* the value of a step depends on the step alone
                     /\ pend' = SubSeq(pend, 1, i - 1) \o SubSeq(pend, i + 1, Len(pend))
               /\ sched' = Append(sched, <<p, l>>)
          /\ UNCHANGED pc
SNext == Issue \/ Settle
SSpec == SInit /\ [][SNext]_vars
Finished == pc > Spine + Conc /\ pend = <<>>
Confluence == Finished => \A i \in 1..(Spine + Conc) : done[i] = i
OnceEach == \A i, j \in 1..Len(pend) : pend[i] = pend[j] => i = j
Export == Finished => PrintT("@@" \o ToJson([s |-> sched]))
=============================================================================
