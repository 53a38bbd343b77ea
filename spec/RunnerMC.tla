------------------------------ MODULE RunnerMC ------------------------------
(* Small-scope exploration of Runner: one chunk of the command line at a    *)
(* time; random recorded runs are entries with a fixed prefix and no chunks.*)
EXTENDS Runner, IOUtils, Json

Entries == ndJsonDeserialize(IOEnv.ENTRIES)
AnnC(c, m) == [c EXCEPT !.hg = AnnRoot(c.hg, m), !.hh = AnnRoot(c.hh, m), !.hv = AnnRoot(c.hv, m), !.hp = AnnRoot(c.hp, m)]

VARIABLES e, s, ph
vars == <<e, s, ph>>

Toks(i, x) == Entries[i].pre \o FlattenSeq([p \in 1..Len(x) |-> Entries[i].ch[x[p]]])

MInit == e \in 1..Len(Entries) /\ s = <<>> /\ ph = "eval"
Type == /\ ph = "typed" /\ Len(s) < Entries[e].max
        /\ \E c \in 1..Len(Entries[e].ch) : s' = Append(s, c)
        /\ ph' = "eval" /\ UNCHANGED e
Report(tag, x) == PrintT("@@" \o ToJson([tag |-> tag, e |-> e, s |-> s] @@ x))
Eval == /\ ph = "eval" /\ ph' = "typed" /\ UNCHANGED <<e, s>>
        /\ LET n == AnnRoot(Entries[e].g, FALSE)
               na == AnnRoot(Entries[e].g, TRUE)
               c == AnnC(Entries[e].c, FALSE)
               ca == AnnC(Entries[e].c, TRUE)
               argv == Toks(e, s)
           IN IF Rejected(n) THEN Report("REJ", <<>>)
              ELSE LET o == Act(c, n, argv)
                       a == Act(ca, na, argv)
                       Viol(p) == Report("PRED", [p |-> p, out |-> o])
                   IN /\ IF POwn(c, n, argv, o) THEN TRUE ELSE Viol("own")
                      /\ IF PNone(c, n, argv, o) THEN TRUE ELSE Viol("none")
                      /\ IF PToken(c, argv, o) THEN TRUE ELSE Viol("token")
                      /\ IF PLast(c, n, argv, o) THEN TRUE ELSE Viol("last")
                      /\ Report("OUT", [out |-> o] @@ IF a = o THEN <<>> ELSE [aout |-> a])
MNext == Type \/ Eval
MSpec == MInit /\ [][MNext]_vars
=============================================================================
