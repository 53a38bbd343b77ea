------------------------------ MODULE Construct ------------------------------
(***************************************************************************)
(* Construction of grammars (C28).  A program text is built bottom-up, one *)
(* combinator call per transition; TLC enumerates all of them.  In every   *)
(* state that holds one finished grammar, the operational rule (Rejected,  *)
(* part of Optique) is compared with a declarative reading of ambiguity,   *)
(* and the verdict is exported to be replayed on the real combinators.     *)
(***************************************************************************)
EXTENDS Optique, IOUtils, Json

Cfg == ndJsonDeserialize(IOEnv.CFG)[1]
Leaves == Cfg.leaves
Wraps == Cfg.wraps
Combs == Cfg.combs

VARIABLES stk, nl, nw, nc, key
vars == <<stk, nl, nw, nc, key>>

CInit == stk = <<>> /\ nl = 0 /\ nw = 0 /\ nc = 0 /\ key = 0
Top == stk[Len(stk)]
PopN(k) == SubSeq(stk, 1, Len(stk) - k)

Push == /\ nl < Cfg.maxLeaves /\ nc + Len(stk) <= Cfg.maxCombs
        /\ \E i \in 1..Len(Leaves) : stk' = Append(stk, Leaves[i])
        /\ nl' = nl + 1 /\ UNCHANGED <<nw, nc, key>>

W(w, x) ==
  CASE w = "optional" -> [t |-> "optional", c |-> x]
    [] w = "multi0"   -> [t |-> "multi", c |-> x, min |-> 0, max |-> -1]
    [] w = "multi1"   -> [t |-> "multi", c |-> x, min |-> 1, max |-> -1]
    [] w = "group"    -> [t |-> "group", c |-> x]
    [] w = "map"      -> [t |-> "map", c |-> x]
    [] w = "nonempty" -> [t |-> "nonempty", c |-> x]
    [] w = "dflt"     -> [t |-> "dflt", c |-> x, dv |-> VS("D")]
    [] w = "cmdx"     -> [t |-> "cmd", nm |-> "x", al |-> <<>>, c |-> x]
    [] w = "cmdz"     -> [t |-> "cmd", nm |-> "z", al |-> <<"y">>, c |-> x]
    [] w = "objhid"   -> [t |-> "obj", ks |-> <<"k0">>, cs |-> <<x>>, hid |-> "all"]

Wrap1 == /\ stk # <<>> /\ nw < Cfg.maxWraps
        /\ \E i \in 1..Len(Wraps) : stk' = Append(PopN(1), W(Wraps[i], Top))
        /\ nw' = nw + 1 /\ UNCHANGED <<nl, nc, key>>

OBJ1(k, x) == [t |-> "obj", ks |-> <<k>>, cs |-> <<x>>]
K(i) == "k" \o ToString(key + i)
Disc == [t |-> "opt", ns |-> <<"--d">>, vp |-> [k |-> "choice", cs |-> <<"on", "off">>]]
CB(c, x, y) ==
  CASE c \in {"tup", "or", "lm", "seq"} -> [t |-> c, cs |-> <<x, y>>]
    [] c = "obj"    -> [t |-> "obj", ks |-> <<K(1), K(2)>>, cs |-> <<x, y>>]
    [] c = "merge"  -> [t |-> "merge", cs |-> <<OBJ1(K(1), x), OBJ1(K(2), y)>>]
    [] c = "concat" -> [t |-> "concat", cs |-> <<[t |-> "tup", cs |-> <<x>>], [t |-> "tup", cs |-> <<y>>]>>]
    [] c = "cond"   -> [t |-> "cond", d |-> Disc, bks |-> <<"on", "off">>, bcs |-> <<x, y>>, hasdef |-> FALSE, def |-> [t |-> "none"]]
    [] c = "condd"  -> [t |-> "cond", d |-> Disc, bks |-> <<"on">>, bcs |-> <<x>>, hasdef |-> TRUE, def |-> y]

Combine == /\ Len(stk) >= 2 /\ nc < Cfg.maxCombs
           /\ \E i \in 1..Len(Combs) : stk' = Append(PopN(2), CB(Combs[i], stk[Len(stk) - 1], Top))
           /\ nc' = nc + 1 /\ key' = key + 2 /\ UNCHANGED <<nl, nw>>

CNext == Push \/ Wrap1 \/ Combine
CSpec == CInit /\ [][CNext]_vars

----------------------------------------------------------------------------
(* Declarative reading.  Reach(n): the option names that can be recognised *)
(* while n is the active part of the grammar; Entry(n): the command names  *)
(* that can start n.                                                       *)
RECURSIVE Reach(_)
Reach(n) ==
  CASE n.t \in {"opt", "bopt", "flag"} -> ToSet(n.ns)
    [] n.t = "nflag" -> ToSet(n.pos) \cup ToSet(n.neg)
    [] n.t = "cmd"   -> {}
    [] n.t = "cond"  -> Reach(n.d) \cup UNION {Reach(n.bcs[i]) : i \in 1..Len(n.bcs)} \cup (IF n.hasdef THEN Reach(n.def) ELSE {})
    [] "cs" \in DOMAIN n -> UNION {Reach(n.cs[i]) : i \in 1..Len(n.cs)}
    [] "c" \in DOMAIN n -> Reach(n.c)
    [] OTHER -> {}

Subs(n) == IF "cs" \in DOMAIN n THEN ToSet(n.cs)
           ELSE IF n.t = "cond" THEN {n.d} \cup ToSet(n.bcs) \cup (IF n.hasdef THEN {n.def} ELSE {})
           ELSE IF "c" \in DOMAIN n THEN {n.c} ELSE {}
RECURSIVE AmbOpt(_)      \* an option name with two simultaneously active owners
AmbOpt(n) == \/ n.t \in {"obj", "tup", "merge"} /\ DupNames([i \in 1..Len(n.cs) |-> Reach(n.cs[i])])
             \/ \E x \in Subs(n) : AmbOpt(x)

RECURSIVE AllNames(_)    \* every option and command name of the text, with its number of declarations
AllNames(n) ==
  LET own == CASE n.t \in {"opt", "bopt", "flag"} -> n.ns
               [] n.t = "nflag" -> n.pos \o n.neg
               [] n.t = "cmd" -> <<"c " \o n.nm>> \o [i \in 1..Len(n.al) |-> "c " \o n.al[i]]
               [] OTHER -> <<>>
      kids == IF "cs" \in DOMAIN n THEN n.cs
              ELSE IF n.t = "cond" THEN <<n.d>> \o n.bcs \o (IF n.hasdef THEN <<n.def>> ELSE <<>>)
              ELSE IF "c" \in DOMAIN n THEN <<n.c>> ELSE <<>>
  IN own \o FlattenSeq([i \in 1..Len(kids) |-> AllNames(kids[i])])
AllDistinct(n) == LET a == AllNames(n) IN Cardinality(ToSet(a)) = Len(a)

(* the same program without hidden marks and without modifiers that change *)
(* no name                                                                 *)
RECURSIVE BareTok(_)
BareTok(n) ==
  CASE n.t \in {"group", "map", "nonempty"} -> BareTok(n.c)
    [] n.t = "cond" -> [n EXCEPT !.bcs = [i \in 1..Len(n.bcs) |-> BareTok(n.bcs[i])], !.def = IF n.hasdef THEN BareTok(n.def) ELSE n.def]
    [] "cs" \in DOMAIN n -> [x \in DOMAIN n \ {"hid"} |-> IF x = "cs" THEN [i \in 1..Len(n.cs) |-> BareTok(n.cs[i])] ELSE n[x]]
    [] "c" \in DOMAIN n -> [x \in DOMAIN n \ {"hid"} |-> IF x = "c" THEN BareTok(n.c) ELSE n[x]]
    [] OTHER -> [x \in DOMAIN n \ {"hid"} |-> n[x]]

RejectedText(n) == Rejected(AnnRoot(n, FALSE))

Rep(tag, x) == PrintT("@@" \o ToJson([tag |-> tag, g |-> Top] @@ x))
Examine ==
  \/ Len(stk) # 1
  \/ LET r == RejectedText(Top)
     IN /\ (AmbOpt(Top) => r) \/ Rep("PRED", [p |-> "an ambiguous option name is accepted", r |-> r])
        /\ (AllDistinct(Top) => ~r) \/ Rep("PRED", [p |-> "distinct names are rejected", r |-> r])
        /\ (r = RejectedText(BareTok(Top))) \/ Rep("PRED", [p |-> "hidden marks or neutral wrappers matter", r |-> r])
        /\ Rep("OUT", [r |-> r])
=============================================================================
