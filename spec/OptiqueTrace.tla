---------------------------- MODULE OptiqueTrace ----------------------------
(***************************************************************************)
(* Trace validation: every recorded execution of the real parsers must be  *)
(* a behaviour of Optique.  One case = grammar, command line and the       *)
(* outcomes observed on the implementation.  The state machine below is    *)
(* the parse() loop; each transition is one root step of the spec.         *)
(***************************************************************************)
EXTENDS Optique, IOUtils, Json

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES idx, md, ph, g, st, buf, term, used, out
vars == <<idx, md, ph, g, st, buf, term, used, out>>

NoOut == [k |-> "none", v |-> VU]

Modes(c) == {c.obs[i].m : i \in 1..Len(c.obs)}

TInit == /\ idx \in 1..Len(Cases)
         /\ md \in Modes(Cases[idx])
         /\ ph = "load" /\ g = [t |-> "none"] /\ st = NIL /\ buf = <<>> /\ term = FALSE
         /\ used = <<>> /\ out = NoOut

Load == /\ ph = "load"
        /\ LET a == AnnRoot(Cases[idx].g, md = "async")
           IN IF Rejected(a)
              THEN /\ out' = [k |-> "throw", v |-> VU] /\ ph' = "check"
                   /\ UNCHANGED <<idx, md, g, st, buf, term, used>>
              ELSE /\ g' = a /\ st' = Init(a) /\ buf' = Cases[idx].argv /\ ph' = "parse"
                   /\ UNCHANGED <<idx, md, term, used, out>>

ParseStep ==
  /\ ph = "parse"
  /\ LET r == Parse(g, st, buf, term)
     IN IF ~r.ok \/ (r.buf # <<>> /\ r.buf = buf)
        THEN /\ out' = [k |-> "fail", v |-> VU] /\ ph' = "check"
             /\ UNCHANGED <<idx, md, g, st, buf, term, used>>
        ELSE /\ st' = r.st /\ buf' = r.buf /\ term' = r.term /\ used' = used \o r.cons
             /\ ph' = IF r.buf = <<>> THEN "complete" ELSE "parse"
             /\ UNCHANGED <<idx, md, g, out>>

CompleteStep ==
  /\ ph = "complete"
  /\ LET c == Complete(g, st, FALSE)
     IN out' = IF c.ok THEN [k |-> "ok", v |-> c.val] ELSE [k |-> "fail", v |-> VU]
  /\ ph' = "check"
  /\ UNCHANGED <<idx, md, g, st, buf, term, used>>

OutEq(a, b) == a.k = b.k /\ (a.k # "ok" \/ ValEq(a.v, b.v))

Report(tag, extra) == PrintT("@@" \o ToJson([tag |-> tag, idx |-> idx] @@ extra))

CheckStep ==
  /\ ph = "check"
  /\ ph' = "done"
  /\ \A i \in 1..Len(Cases[idx].obs) :
       IF Cases[idx].obs[i].m # md \/ OutEq(out, Cases[idx].obs[i].r) THEN TRUE
       ELSE Report("MISMATCH", [mode |-> Cases[idx].obs[i].m, want |-> out, got |-> Cases[idx].obs[i].r])
  /\ UNCHANGED <<idx, md, g, st, buf, term, used, out>>

TNext == Load \/ ParseStep \/ CompleteStep \/ CheckStep
TSpec == TInit /\ [][TNext]_vars
=============================================================================
