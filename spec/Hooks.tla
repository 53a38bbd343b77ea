------------------------------- MODULE Hooks --------------------------------
(* Lifecycle of one program run: the program's hooks (P) around the         *)
(* command's hooks (C) around the handler (H).  b, a, e = beforeEach,       *)
(* afterEach, onError.  Every configuration of defined hooks and every      *)
(* pattern of failures is a behaviour.                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, TLC
VARIABLES has,      \* the hooks that are defined
          kind,     \* what is asked for
          pc,       \* next step
          log,      \* steps taken, with the context received and how they ended
          ctx,      \* contexts made so far: P and C
          err       \* the step whose error is on its way to the caller
vars == <<has, kind, pc, log, ctx, err>>
Hook == {"Pb", "Pa", "Pe", "Cb", "Ca", "Ce"}
Kinds == {"run", "help", "helpcmd", "version", "completion", "badoption", "nocommand", "badvalue"}
Init == /\ has \in SUBSET Hook /\ kind \in Kinds
        /\ pc = IF kind = "run" THEN "Pb" ELSE "exit"
        /\ log = <<>> /\ ctx = [P |-> "empty", C |-> "empty"] /\ err = "none"
(* the context a level works with *)
P == ctx.P
C == IF "Cb" \in has THEN ctx.C ELSE ctx.P
Received(s) ==
  CASE s \in {"Pa", "Pe"} -> P
    [] s \in {"Ca", "Ce"} -> C
    [] s = "H" -> IF "Cb" \in has THEN ctx.C ELSE IF "Pb" \in has THEN ctx.P ELSE "none"
    [] OTHER -> "invocation"
Onward(s) == CASE s = "Pb" -> "Cb" [] s = "Cb" -> "H" [] s = "H" -> "Ca" [] s = "Ca" -> "Pa" [] s = "Pa" -> "done"
               [] s = "Ce" -> "Pe" [] s = "Pe" -> "done"
Failure(s) == CASE s \in {"Pb", "Pa"} -> "Pe" [] OTHER -> "Ce"
Fates(s) == IF s \in {"Pb", "Cb"} THEN {"context", "nothing", "fail"} ELSE {"ok", "fail"}
Skip == /\ pc \in Hook /\ pc \notin has
        /\ pc' = Onward(pc) /\ UNCHANGED <<has, kind, log, ctx, err>>
Do(f) == /\ pc = "H" \/ pc \in has
         /\ log' = Append(log, [s |-> pc, got |-> Received(pc), err |-> IF pc \in {"Pe", "Ce"} THEN err ELSE "none", f |-> f])
         /\ ctx' = CASE pc = "Pb" /\ f = "context" -> [ctx EXCEPT !.P = "P"]
                     [] pc = "Cb" /\ f = "context" -> [ctx EXCEPT !.C = "C"]
                     [] OTHER -> ctx
         /\ err' = IF f = "fail" /\ pc \notin {"Pe", "Ce"} THEN pc ELSE err   \* an error hook's own failure is dropped
         /\ pc' = IF f = "fail" /\ pc \notin {"Pe", "Ce"} THEN Failure(pc) ELSE Onward(pc)
         /\ UNCHANGED <<has, kind>>
Say == /\ pc \in {"done", "exit"}
       /\ PrintT("@@" \o ToJson([has |-> has, kind |-> kind, end |-> pc, log |-> log, err |-> err]))
       /\ pc' = "stop" /\ UNCHANGED <<has, kind, log, ctx, err>>
Next == Skip \/ (pc \in Hook \cup {"H"} /\ \E f \in Fates(pc) : Do(f)) \/ Say
Spec == Init /\ [][Next]_vars

(* ---- what the property says ---- *)
Steps == [i \in 1..Len(log) |-> log[i].s]
At(s) == CHOOSE i \in 1..Len(log) : log[i].s = s
Ran(s) == \E i \in 1..Len(log) : log[i].s = s
Good(s) == Ran(s) /\ log[At(s)].f # "fail"
Over == pc \in {"done", "stop"} /\ kind = "run"
Once == \A i, j \in 1..Len(log) : log[i].s = log[j].s => i = j
Order == <<"Pb", "Cb", "H", "Ca", "Pa", "Ce", "Pe">>
Pos(s) == CHOOSE i \in 1..7 : Order[i] = s
Nested == \A i, j \in 1..Len(log) : i < j => Pos(log[i].s) < Pos(log[j].s) \/ (log[i].s = "Pa" /\ log[j].s = "Pe")
Reported == Over => (err = "none" <=> \A i \in 1..Len(log) : log[i].s \in {"Pe", "Ce"} \/ log[i].f # "fail")
FirstError == err # "none" => \A i \in 1..At(err) - 1 : log[i].f # "fail"
AfterMeansSuccess == (Ran("Ca") \/ Ran("Pa")) => Good("H")
Balanced == Over => /\ ("Pa" \in has /\ err = "none" => Good("Pa")) /\ ("Ca" \in has /\ err = "none" => Good("Ca"))
                    /\ ("Pe" \in has => (Ran("Pe") <=> err # "none"))
                    /\ ("Ce" \in has => (Ran("Ce") <=> err \in {"Cb", "H", "Ca"}))
Silent == kind # "run" => log = <<>>
=============================================================================
