------------------------------- MODULE Usage --------------------------------
(* What a usage line says.  A usage line is read token by token by the      *)
(* notation ([x] may be left out, (x | y) is a choice, x... is repeated);   *)
(* what it allows is a set of words, and must be exactly what the grammar   *)
(* allows, hidden parts apart.  A word is a multiset of names and values    *)
(* with the order of its positional values.  x... stands for one or R of x. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Entries == ndJsonDeserialize(IOEnv.ENTRIES)
R == 2
VARIABLES ix, pos, stack
vars == <<ix, pos, stack>>
E == Entries[ix]
(* ---- languages ---- *)
Eps == [b |-> [s \in {} |-> 0], p |-> <<>>]
Add(f, g) == [s \in DOMAIN f \cup DOMAIN g |-> (IF s \in DOMAIN f THEN f[s] ELSE 0) + (IF s \in DOMAIN g THEN g[s] ELSE 0)]
Cat(a, b) == [b |-> Add(a.b, b.b), p |-> a.p \o b.p]
Word(s, isarg) == [b |-> (s :> 1), p |-> IF isarg THEN <<s>> ELSE <<>>]
Prod(A, B) == IF A = {} THEN B ELSE IF B = {} THEN A ELSE {Cat(a, b) : a \in A, b \in B}   \* {}: nothing is shown
RECURSIVE Pow(_, _)
Pow(A, k) == IF k = 1 THEN A ELSE Prod(Pow(A, k - 1), A)
Rep(A) == IF A = {} THEN {} ELSE UNION {Pow(A, k) : k \in 1..R}
Opt(A) == IF A = {} THEN {} ELSE A \cup {Eps}
(* ---- the language of a grammar ---- *)
(* the synopsis of a manual page brackets every option, and does not count  *)
Man(A) == IF E.man THEN Opt(A) ELSE A
Mark(n) == IF "hid" \in DOMAIN n THEN n.hid \in {"all", "usage", "help"} ELSE FALSE
RECURSIVE Join(_)
Join(ns) == IF Len(ns) = 1 THEN ns[1] ELSE ns[1] \o "/" \o Join(Tail(ns))
Shortest(ns) == ns[CHOOSE i \in 1..Len(ns) : \A j \in 1..Len(ns) : Len(ns[i]) < Len(ns[j]) \/ (Len(ns[i]) = Len(ns[j]) /\ i <= j)]
Name(ns) == IF E.short THEN Shortest(ns) ELSE Join(ns)
RECURSIVE Prio(_)
MaxP(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Prio(n) == CASE n.t \in {"opt", "bopt", "flag", "nflag"} -> 10
             [] n.t = "arg" -> 5
             [] n.t = "cmd" -> 15
             [] n.t = "const" -> 0
             [] n.t = "pass" -> -10
             [] "cs" \in DOMAIN n -> MaxP({Prio(n.cs[i]) : i \in 1..Len(n.cs)})
             [] n.t = "cond" -> MaxP({Prio(n.d)} \cup {Prio(n.bcs[i]) : i \in 1..Len(n.bcs)})
             [] OTHER -> Prio(n.c)
(* order in which the parts get positional values *)
Ordered(cs) == LET idx == [i \in 1..Len(cs) |-> i]
                   S == SortSeq(idx, LAMBDA i, j : Prio(cs[i]) > Prio(cs[j]) \/ (Prio(cs[i]) = Prio(cs[j]) /\ i < j))
               IN [k \in 1..Len(cs) |-> cs[S[k]]]
RECURSIVE Lang(_, _)
RECURSIVE All(_, _)
All(cs, h) == IF cs = <<>> THEN {} ELSE Prod(Lang(cs[1], h), All(Tail(cs), h))
Lang(n, h) ==
  LET g == h \/ Mark(n) IN
  CASE n.t = "opt" -> IF g THEN {} ELSE Man({Cat(Word(Name(n.ns), FALSE), IF E.short THEN Eps ELSE Word(n.vp.mv, FALSE))})
    [] n.t = "bopt" -> IF g THEN {} ELSE Opt({Word(Name(n.ns), FALSE)})
    [] n.t = "flag" -> IF g THEN {} ELSE Man({Word(Name(n.ns), FALSE)})
    [] n.t = "nflag" -> IF g THEN {} ELSE Man({Word(Name(n.pos \o n.neg), FALSE)})
    [] n.t = "arg" -> IF g THEN {} ELSE {Word(n.vp.mv, TRUE)}
    [] n.t = "pass" -> IF g THEN {} ELSE {Word("[...]", FALSE)}
    [] n.t = "const" -> {}
    [] n.t = "cmd" -> IF g THEN {} ELSE Prod({Word(n.nm, FALSE)}, Lang(n.c, FALSE))
    [] n.t \in {"obj", "merge"} -> All(Ordered(n.cs), g)
    [] n.t \in {"tup", "concat"} -> All(Ordered(n.cs), h)
    [] n.t = "seq" -> All(n.cs, h)
    [] n.t = "group" -> Lang(n.c, g)
    [] n.t \in {"or", "lm"} -> UNION {Lang(n.cs[i], h) : i \in 1..Len(n.cs)}
    [] n.t \in {"map", "nonempty"} -> Lang(n.c, h)
    [] n.t \in {"optional", "dflt"} -> Opt(Lang(n.c, h))
    [] n.t = "multi" -> LET L == Lang(n.c, h) IN
         IF L = {} THEN {} ELSE IF n.min = 0 THEN Opt(Rep(L)) ELSE IF E.man THEN Rep(L) ELSE UNION {Pow(L, k) : k \in n.min..(n.min + R - 1)}
    [] n.t = "cond" ->
         LET D(k) == IF n.d.t = "arg" THEN Lang(n.d, h) ELSE IF h \/ Mark(n.d) THEN {} ELSE {Cat(Word(Name(n.d.ns), FALSE), Word(k, FALSE))} IN
         UNION {Prod(D(n.bks[i]), Lang(n.bcs[i], h)) : i \in 1..Len(n.bcs)} \cup (IF n.hasdef THEN Lang(n.def, h) ELSE {})
(* ---- reading the line ---- *)
(* frame: how it was opened, the alternatives read, the current one without *)
(* its last unit, the last unit, and the name that still awaits its value   *)
Frame(k) == [k |-> k, alts |-> {}, cur |-> {}, unit |-> {}, want |-> ""]
Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
Put(st, f) == [st EXCEPT ![Len(st)] = f]
Unit(f, u) == [f EXCEPT !.cur = Prod(f.cur, f.unit), !.unit = u]
Sum(f) == Prod(f.cur, f.unit)
Tok == E.toks[pos]
Lookup(s) == IF \E i \in 1..Len(E.takes) : E.takes[i][1] = s THEN E.takes[CHOOSE i \in 1..Len(E.takes) : E.takes[i][1] = s][2] ELSE <<>>
IsArg(s) == \E i \in 1..Len(E.args) : E.args[i] = s
Bad == stack = <<>>
Read ==
  /\ pos <= Len(E.toks) /\ ~Bad
  /\ pos' = pos + 1 /\ UNCHANGED ix
  /\ stack' =
       CASE Top.want # "" ->       \* an option's value follows its name
              IF \E i \in 1..Len(Lookup(Top.want)) : Lookup(Top.want)[i] = Tok
              THEN Put(stack, [Unit(Top, {Cat(Word(Top.want, FALSE), Word(Tok, FALSE))}) EXCEPT !.want = ""])
              ELSE <<>>
         [] Tok \in {"[", "("} -> Append(stack, Frame(Tok))
         [] Tok \in {"]", ")"} ->
              IF Len(stack) < 2 \/ Top.k # (IF Tok = "]" THEN "[" ELSE "(") \/ Sum(Top) = {} THEN <<>>
              ELSE LET l == Top.alts \cup Sum(Top) IN Put(Below, Unit(stack[Len(stack) - 1], IF Tok = "]" THEN Opt(l) ELSE l))
         [] Tok = "|" -> IF Top.k # "(" \/ Sum(Top) = {} THEN <<>>
                         ELSE Put(stack, [Frame("(") EXCEPT !.alts = Top.alts \cup Sum(Top)])
         [] Tok = "..." -> IF Top.unit = {} THEN <<>> ELSE Put(stack, [Top EXCEPT !.unit = Rep(@)])
         [] Tok = "NL" /\ ~E.man -> IF Len(stack) # 1 THEN <<>> ELSE <<[Frame("") EXCEPT !.alts = Top.alts \cup Sum(Top)]>>
         [] OTHER -> IF Lookup(Tok) # <<>> THEN Put(stack, [Top EXCEPT !.want = Tok])
                     ELSE Put(stack, Unit(Top, {Word(Tok, IsArg(Tok))}))
Said == Top.alts \cup Sum(Top)
Say ==
  /\ pos = Len(E.toks) + 1 \/ (Bad /\ pos <= Len(E.toks) + 1)
  /\ LET want == IF E.tree.t = "text" THEN {} ELSE Lang(E.tree, FALSE)
         ok == ~Bad /\ Len(stack) = 1 /\ Top.want = ""
         got == IF ok THEN Said ELSE {}
         Bags(S) == {w.b : w \in S}
     IN PrintT("@@" \o ToJson([ix |-> ix, read |-> ok, bags |-> ok /\ Bags(got) = Bags(want), order |-> ok /\ got = want, size |-> Cardinality(want),
                ex |-> IF want \ got # {} THEN ToString(CHOOSE w \in want \ got : TRUE) ELSE IF got \ want # {} THEN ToString(CHOOSE w \in got \ want : TRUE) ELSE ""]))
  /\ pos' = Len(E.toks) + 2 /\ UNCHANGED <<ix, stack>>
Init == ix \in 1..Len(Entries) /\ pos = 1 /\ stack = <<Frame("")>>
Next == Read \/ Say
Spec == Init /\ [][Next]_vars
=============================================================================
