------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* Histories on shared parser objects (C29, C22).  A history interleaves   *)
(* the starts and asynchronous progress of several sessions (asynchronous  *)
(* parses, synchronous parses, completions, documentation requests) on one *)
(* parser object.  The spec's claim is that the outcome of a session is a  *)
(* function of the grammar and its own command line: no state variable is  *)
(* shared.  TLC enumerates the histories; the driver executes each with    *)
(* gated value parsers, so that the same interleaving happens in the code. *)
(***************************************************************************)
EXTENDS Optique, IOUtils, Json

Cfg == ndJsonDeserialize(IOEnv.CFG)[1]
Entries == ndJsonDeserialize(IOEnv.ENTRIES)
GA == [i \in 1..Len(Entries) |-> AnnRoot(Entries[i].g, TRUE)]
GS == [i \in 1..Len(Entries) |-> AnnRoot(Entries[i].g, FALSE)]
O(c) == IF c.ok THEN [k |-> "ok", v |-> c.val] ELSE [k |-> "fail", v |-> VU]
OutA == [i \in 1..Len(Entries) |-> [j \in 1..Len(Entries[i].argvs) |-> O(Run(GA[i], Entries[i].argvs[j]))]]
OutS == [i \in 1..Len(Entries) |-> [j \in 1..Len(Entries[i].argvs) |-> O(Run(GS[i], Entries[i].argvs[j]))]]

VARIABLES e, a1, a2, a3, kind, hist, ph
vars == <<e, a1, a2, a3, kind, hist, ph>>

SInit == /\ e \in 1..Len(Entries)
         /\ a1 \in 1..Len(Entries[e].argvs) /\ a2 \in 1..Len(Entries[e].argvs) /\ a3 \in 1..Len(Entries[e].argvs)
         /\ kind \in ToSet(Cfg.kinds)
         /\ hist = <<>> /\ ph = "run"
Has(x) == \E i \in 1..Len(hist) : hist[i] = x
Count(x) == Cardinality({i \in 1..Len(hist) : hist[i] = x})
Step(x) == hist' = Append(hist, x) /\ UNCHANGED <<e, a1, a2, a3, kind, ph>>
Start1 == ~Has("S1") /\ Step("S1")
Start2 == ~Has("S2") /\ Has("S1") /\ Step("S2")         \* symmetric otherwise
Third  == ~Has("S3") /\ Step("S3")
Tick1  == Has("S1") /\ Count("T1") < Cfg.ticks /\ Step("T1")
Tick2  == Has("S2") /\ Count("T2") < Cfg.ticks /\ Step("T2")
Full == Has("S1") /\ Has("S2") /\ Has("S3") /\ Count("T1") = Cfg.ticks /\ Count("T2") = Cfg.ticks
Finish == /\ ph = "run" /\ Full /\ ph' = "done" /\ UNCHANGED <<e, a1, a2, a3, kind, hist>>
SNext == ph = "run" /\ (Start1 \/ Start2 \/ Third \/ Tick1 \/ Tick2 \/ Finish)
SSpec == SInit /\ [][SNext]_vars

Export ==
  \/ ph # "done"
  \/ PrintT("@@" \o ToJson([e |-> e, a |-> <<a1, a2, a3>>, kind |-> kind, h |-> hist,
                            out |-> <<OutA[e][a1], OutA[e][a2], IF kind = "sync" THEN OutS[e][a3] ELSE [k |-> "ok", v |-> VU]>>]))
=============================================================================
