---------------------------- MODULE SuggestDeps ----------------------------
(* Completion of a dependent option: what is offered is what the parser     *)
(* built for the source values given so far accepts.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
(* An entry: srcs[i] = [wd] (the default of a withDefault() around source i, *)
(* 0 for none), deps[j] = [on, dv] (its sources and the declared defaults),  *)
(* tokens: what may be typed, [who, i, v]; the value 9 is not a valid one.   *)
Entries == ndJsonDeserialize(IOEnv.ENTRIES)
VARIABLES ix, used, line
vars == <<ix, used, line>>
E == Entries[ix]
Given(i) == SelectSeq(line, LAMBDA t : t.who = "s" /\ t.i = i)
Fails(i) == \E k \in 1..Len(Given(i)) : Given(i)[k].v = 9
Given0(i) == Given(i) # <<>>
Value(d, k) ==                    \* the value of the k-th source of d
  LET i == d.on[k] IN IF Given(i) # <<>> THEN Last(Given(i)).v
                      ELSE IF E.srcs[i].wd # 0 THEN E.srcs[i].wd ELSE d.dv[k]
Expect(d) == IF \E k \in 1..Len(d.on) : Fails(d.on[k]) THEN [fail |-> TRUE, vs |-> <<>>]
             ELSE [fail |-> FALSE, vs |-> [k \in 1..Len(d.on) |-> Value(d, k)]]
Ask == PrintT("@@" \o ToJson([ix |-> ix, line |-> line, want |-> [j \in 1..Len(E.deps) |-> Expect(E.deps[j])]]))
Init == ix \in 1..Len(Entries) /\ used = {} /\ line = <<>>
Type(k) == /\ k \notin used
           /\ used' = used \cup {k} /\ line' = Append(line, E.tokens[k]) /\ UNCHANGED ix
Next == Ask /\ \E k \in 1..Len(E.tokens) : Type(k)
Spec == Init /\ [][Next]_vars
(* no source and no default can matter to a dependent that is not built on it *)
OnlySources == \A j \in 1..Len(E.deps) : ~Expect(E.deps[j]).fail =>
  \A k \in 1..Len(E.deps[j].on) :
     \/ \E m \in 1..Len(line) : line[m].who = "s" /\ line[m].i = E.deps[j].on[k] /\ line[m].v = Expect(E.deps[j]).vs[k]
     \/ ~Given0(E.deps[j].on[k])
(* typing a value of a source last makes it the value *)
LastWins == line # <<>> /\ Last(line).who = "s" /\ Last(line).v # 9 =>
  \A j \in 1..Len(E.deps) : \A k \in 1..Len(E.deps[j].on) :
     E.deps[j].on[k] = Last(line).i /\ ~Expect(E.deps[j]).fail => Expect(E.deps[j]).vs[k] = Last(line).v
=============================================================================
