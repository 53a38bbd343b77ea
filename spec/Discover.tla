------------------------------ MODULE Discover ------------------------------
(* Commands found in a tree of files, and which of them an argument vector  *)
(* names.  A state is a tree with the part of it that was listed so far;    *)
(* directories may be listed and files claimed in any order.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Strings, Json, IOUtils, TLC
Trees == ndJsonDeserialize(IOEnv.ENTRIES)
VARIABLES ix, todo, seen, other, clash, told
vars == <<ix, todo, seen, other, clash, told>>
T == Trees[ix]
(* ---- what a file name stands for ---- *)
Declaration(f) == \E e \in {".d.ts", ".d.mts", ".d.cts"} : EndsWith(f, e)
Matching(f) == {i \in 1..Len(T.exts) : EndsWith(f, T.exts[i])}
Suffix(f) == T.exts[CHOOSE i \in Matching(f) : \A j \in Matching(f) : Len(T.exts[j]) <= Len(T.exts[i])]
Stem(f) == SubSeq(f, 1, Len(f) - Len(Suffix(f)))
Test(f) == EndsWith(Stem(f), ".test") \/ EndsWith(Stem(f), ".spec")
Eligible(f) == IF Declaration(f) \/ Matching(f) = {} THEN FALSE ELSE ~Test(f)
CmdPath(dirs, f) == IF T.entry # "" /\ Stem(f) = T.entry THEN dirs ELSE Append(dirs, Stem(f))
(* ---- listing ---- *)
(* work items: an entry of directory d reached under the name `at`, inside  *)
(* the directories `in`                                                     *)
Items(d, at, in) == {[d |-> d, i |-> i, at |-> at, in |-> in] : i \in 1..Len(T.dirs[d])}
E(w) == T.dirs[w.d][w.i]
Init == /\ ix \in 1..Len(Trees)
        /\ todo = Items(1, <<>>, {1}) /\ seen = {} /\ other = {} /\ clash = FALSE /\ told = FALSE
(* Small trees are listed in every order, large ones in one order.          *)
First(w) == T.free \/ \A v \in todo : Cardinality(w.in) > Cardinality(v.in) \/ (Cardinality(w.in) = Cardinality(v.in) /\ (v.d > w.d \/ (v.d = w.d /\ v.i >= w.i)))
List(w) ==
  LET e == E(w) IN
  /\ todo' = (todo \ {w}) \cup (IF e.t = "dir" /\ e.to \notin w.in THEN Items(e.to, Append(w.at, e.n), w.in \cup {e.to}) ELSE {})
  /\ IF e.t = "file" /\ Eligible(e.n)
     THEN LET p == CmdPath(w.at, e.n) IN
          /\ clash' = (clash \/ e.bad \/ \E s \in seen : s.path = p)
          /\ seen' = seen \cup {[path |-> p, file |-> Append(w.at, e.n), id |-> e.id]}
          /\ other' = other
     ELSE /\ other' = IF e.t = "file" THEN other \cup {Append(w.at, e.n)} ELSE other
          /\ UNCHANGED <<clash, seen>>
  /\ UNCHANGED <<ix, told>>
(* ---- dispatch ---- *)
Rejected == clash \/ seen = {}
IsPrefix2(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Segments(at) == {s.path[Len(at) + 1] : s \in {x \in seen : Len(x.path) > Len(at) /\ IsPrefix2(at, x.path)}}
Cmd(p) == {s \in seen : s.path = p}
Names(at, seg) == {seg} \cup UNION {ToSet(T.cmds[s.id].al) : s \in Cmd(Append(at, seg))}
RECURSIVE Walk(_, _)
Walk(at, words) ==
  IF words = <<>> THEN <<at, words>>
  ELSE LET k == {g \in Segments(at) : words[1] \in Names(at, g)} IN
       IF k = {} THEN <<at, words>> ELSE Walk(Append(at, CHOOSE g \in k : TRUE), Tail(words))
Answer(words) ==
  LET w == Walk(<<>>, words)  c == Cmd(w[1]) IN
  IF c = {} THEN [k |-> "error", id |-> 0, path |-> <<>>, x |-> "", late |-> FALSE]
  ELSE LET s == CHOOSE s \in c : TRUE IN
       IF w[2] = <<>> THEN [k |-> "call", id |-> s.id, path |-> w[1], x |-> "", late |-> FALSE]
       ELSE IF T.cmds[s.id].pos /\ Len(w[2]) = 1 THEN [k |-> "call", id |-> s.id, path |-> w[1], x |-> w[2][1], late |-> TRUE]
       ELSE [k |-> "error", id |-> 0, path |-> <<>>, x |-> "", late |-> FALSE]
Say == /\ todo = {} /\ ~told /\ told' = TRUE
       /\ PrintT("@@" \o ToJson([ix |-> ix, reject |-> Rejected, cmds |-> SetToSeq(seen), other |-> SetToSeq(other),
                                 answers |-> IF Rejected THEN <<>> ELSE [i \in 1..Len(T.argvs) |-> Answer(T.argvs[i])]]))
       /\ UNCHANGED <<ix, todo, seen, other, clash>>
Next == (\E w \in todo : First(w) /\ List(w)) \/ Say
Spec == Init /\ [][Next]_vars
(* each eligible file exactly one command; the outcome is that of the whole *)
(* tree, whatever the order                                                 *)
OneEach == ~clash => \A s, t \in seen : s.path = t.path => s = t
ClashKept == (\E s, t \in seen : s # t /\ s.path = t.path) => clash
NoIgnored == \A s \in seen : LET f == s.file[Len(s.file)] IN ~Declaration(f) /\ ~EndsWith(f, ".test" \o Suffix(f)) /\ ~EndsWith(f, ".spec" \o Suffix(f))
=============================================================================
