-------------------------------- MODULE Help --------------------------------
(* What the usage line and the help page of a grammar mention.  A state is  *)
(* a grammar and the commands entered so far; entering a command is a step. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Grammars == ndJsonDeserialize(IOEnv.ENTRIES)
VARIABLES ix, path
vars == <<ix, path>>
MaxDepth == 3

Kids(n) == CASE n.t = "cond" -> <<n.d>> \o n.bcs \o (IF n.hasdef THEN <<n.def>> ELSE <<>>)
             [] "cs" \in DOMAIN n -> n.cs
             [] "c" \in DOMAIN n -> <<n.c>>
             [] OTHER -> <<>>
(* where something is hidden: its own mark and those of the enclosing       *)
(* group(), object() and merge()                                            *)
Mark(n) == IF "hid" \notin DOMAIN n THEN {}
           ELSE CASE n.hid = "all" -> {"usage", "doc", "hint"} [] n.hid = "help" -> {"usage", "doc"} [] OTHER -> {n.hid}
Inh(n, h) == IF n.t \in {"obj", "group", "merge"} THEN h \cup Mark(n) ELSE h
Own(n) ==
  CASE n.t = "opt" -> ToSet(n.ns) \cup {n.vp.mv}
    [] n.t \in {"bopt", "flag"} -> ToSet(n.ns)
    [] n.t = "nflag" -> ToSet(n.pos) \cup ToSet(n.neg)
    [] n.t = "arg" -> {n.vp.mv}
    [] n.t = "cmd" -> {n.nm}
    [] OTHER -> {}
(* is the command c1 met first in this part of the grammar *)
RECURSIVE Enters(_, _)
Enters(n, c1) == IF n.t = "cmd" THEN n.nm = c1
                 ELSE \E i \in 1..Len(Kids(n)) : Enters(Kids(n)[i], c1)
RECURSIVE Cmds(_)
Cmds(n) == IF n.t = "cmd" THEN {n.nm} ELSE UNION {Cmds(Kids(n)[i]) : i \in 1..Len(Kids(n))}
(* commands that may be the first word: not behind something in seq() or in *)
(* a conditional's branches, whose discriminator comes first                *)
RECURSIVE Takes(_)
Takes(n) == n.t \in {"arg", "pass"} \/ (n.t # "cmd" /\ \E i \in 1..Len(Kids(n)) : Takes(Kids(n)[i]))
RECURSIVE First(_)
First(n) == CASE n.t = "cmd" -> {n}
              [] n.t = "seq" -> IF n.cs[1].t = "cmd" THEN {n.cs[1]} ELSE {}
              [] n.t = "cond" -> {}
              [] n.t \in {"or", "lm"} ->   \* an earlier positional would take the word
                   UNION {First(n.cs[i]) : i \in {j \in 1..Len(n.cs) : \A k \in 1..j : ~Takes(n.cs[k])}}
              [] OTHER -> UNION {First(Kids(n)[i]) : i \in 1..Len(Kids(n))}

RECURSIVE Metavars(_)            \* of options
Metavars(n) == IF n.t = "opt" THEN {n.vp.mv} ELSE UNION {Metavars(Kids(n)[i]) : i \in 1..Len(Kids(n))}

RECURSIVE Shown(_, _, _, _)
Shown(n, place, p, h) ==
  LET hh == Inh(n, h)  All == UNION {Shown(Kids(n)[i], place, p, hh) : i \in 1..Len(Kids(n))}
  IN CASE n.t = "cmd" ->
            IF p # <<>> /\ p[1] = n.nm
            THEN (IF place = "usage" THEN {n.nm} ELSE {}) \cup Shown(n.c, place, Tail(p), hh)
            ELSE IF place \in (h \cup Mark(n)) THEN {}
            ELSE IF place = "doc" THEN {n.nm} ELSE {n.nm} \cup Shown(n.c, place, <<>>, hh)
       [] n.t \in {"or", "lm"} ->
            IF p # <<>> /\ \E i \in 1..Len(n.cs) : Enters(n.cs[i], p[1])
            THEN UNION {Shown(n.cs[i], place, p, hh) : i \in {j \in 1..Len(n.cs) : Enters(n.cs[j], p[1])}}
            ELSE All
       [] n.t = "cond" ->          \* the values of the discriminator stand for its metavariable
            IF place = "usage" THEN All \ (Metavars(n.d) \ UNION {Shown(Kids(n)[i], place, p, hh) : i \in 2..Len(Kids(n))}) ELSE All
       [] Kids(n) # <<>> -> All
       [] OTHER -> IF place \in (h \cup Mark(n)) THEN {} ELSE Own(n)
RECURSIVE Hidden(_, _)           \* never mentioned in hints
Hidden(n, h) == LET hh == Inh(n, h) IN
  (IF n.t \in {"obj", "group", "merge"} \/ "hint" \notin (h \cup Mark(n)) THEN {}
   ELSE IF n.t = "cmd" THEN {n.nm} ELSE Own(n) \ {IF "vp" \in DOMAIN n THEN n.vp.mv ELSE ""})
  \cup UNION {Hidden(Kids(n)[i], hh) : i \in 1..Len(Kids(n))}

(* Several commands next to each other, not as alternatives: which of the   *)
(* others a page still mentions is not fixed.                               *)
RECURSIVE Crowded(_)
Crowded(n) == \/ n.t \in {"obj", "tup", "merge", "concat", "seq"} /\ Cardinality({i \in 1..Len(n.cs) : Cmds(n.cs[i]) # {}}) > 1
              \/ \E i \in 1..Len(Kids(n)) : Crowded(Kids(n)[i])
RECURSIVE Inside(_, _)           \* what is being parsed after the commands of p
Inside(n, p) == IF p = <<>> THEN {n}
                ELSE UNION {Inside(m.c, Tail(p)) : m \in {x \in First(n) : x.nm = p[1]}}
(* a positional argument next to the command takes the next word *)
RECURSIVE Clear(_, _)
Clear(n, p) == IF p = <<>> THEN TRUE
               ELSE ~Takes(n) /\ \A m \in {x \in First(n) : x.nm = p[1]} : Clear(m.c, Tail(p))
(* A page must show what belongs to the command entered, and the rest of    *)
(* the grammar except alternatives that are settled already.                *)
RECURSIVE NoAlternatives(_, _)
NoAlternatives(n, p) ==
  CASE n.t = "cmd" -> IF p # <<>> /\ p[1] = n.nm THEN [n EXCEPT !.c = NoAlternatives(n.c, Tail(p))] ELSE n
    [] n.t \in {"or", "lm"} /\ p # <<>> -> [n EXCEPT !.cs = [i \in 1..Len(n.cs) |-> IF Enters(n.cs[i], p[1]) THEN NoAlternatives(n.cs[i], p) ELSE [t |-> "const"]]]
    [] n.t = "cond" -> n
    [] "cs" \in DOMAIN n -> [n EXCEPT !.cs = [i \in 1..Len(n.cs) |-> NoAlternatives(n.cs[i], p)]]
    [] "c" \in DOMAIN n -> [n EXCEPT !.c = NoAlternatives(n.c, p)]
    [] OTHER -> n
G == Grammars[ix]
(* marks of the containers around the commands entered *)
RECURSIVE OuterMarks(_, _)
OuterMarks(n, p) == IF p = <<>> THEN {}
                    ELSE IF n.t = "cmd" THEN (IF n.nm = p[1] THEN OuterMarks(n.c, Tail(p)) ELSE {})
                    ELSE (IF Enters(n, p[1]) THEN Inh(n, {}) ELSE {}) \cup UNION {OuterMarks(Kids(n)[i], p) : i \in 1..Len(Kids(n))}
(* the page of a grammar that is one command is the page of that command *)
RECURSIVE Top(_)
Top(n) == IF n.t \in {"map", "nonempty"} THEN Top(n.c) ELSE n
Page == IF path = <<>> /\ Top(G).t = "cmd" /\ "doc" \notin Mark(Top(G)) THEN <<Top(G).nm>> ELSE path
Say == PrintT("@@" \o ToJson([ix |-> ix, path |-> path, crowded |-> Crowded(G), usage |-> Shown(G, "usage", Page, {}),
                              doc |-> Shown(NoAlternatives(G, path), "doc", Page, {}), alldoc |-> Shown(G, "doc", Page, {}),
                              own |-> UNION {Shown(m, "usage", <<>>, OuterMarks(G, path)) : m \in Inside(G, path)}, root |-> Shown(G, "usage", <<>>, {}),
                              hidden |-> Hidden(G, {})]))
Init == ix \in 1..Len(Grammars) /\ path = <<>>
Enter(c) == path' = Append(path, c.nm) /\ UNCHANGED ix
Next == Say /\ (IF Len(path) < MaxDepth THEN Clear(G, path) ELSE FALSE) /\ \E m \in Inside(G, path) : \E c \in First(m) : Enter(c)
Spec == Init /\ [][Next]_vars
(* hiding only ever removes, and only below the mark *)
RECURSIVE Everything(_)
Everything(n) == Own(n) \cup UNION {Everything(Kids(n)[i]) : i \in 1..Len(Kids(n))}
OnlyItems == Shown(G, "usage", path, {}) \cup Shown(G, "doc", path, {}) \subseteq Everything(G)
=============================================================================
