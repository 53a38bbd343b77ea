------------------------------- MODULE Pages --------------------------------
(* What a help page says about each item: its own description, the default  *)
(* of the value it stands for, its choices, and the section named by the    *)
(* innermost label around it; and about the command entered.  States and    *)
(* steps are those of Help: a grammar and the commands entered so far.      *)
EXTENDS Help
None == [k |-> "none", v |-> ""]
Open == [k |-> "any", v |-> ""]
Field(d, name) == IF d.k # "o" THEN (IF d.k = "any" THEN Open ELSE None)
                  ELSE LET I == {i \in 1..Len(d.f) : d.f[i].n = name} IN IF I = {} THEN None ELSE d.f[CHOOSE i \in I : TRUE].v
Elem(d, i) == IF d.k = "a" THEN (IF i <= Len(d.e) THEN d.e[i] ELSE None) ELSE IF d.k = "any" THEN Open ELSE None
Blur(d) == IF d.k = "none" THEN None ELSE Open
Lab(n, l) == IF n.lab = "" THEN l ELSE [must |-> n.lab, may |-> l.may \cup {l.must, ""}]
Item(id, n, l, d) == [id |-> id, desc |-> n.desc, def |-> d,
                      choices |-> IF "vp" \in DOMAIN n THEN (IF n.vp.k = "choice" THEN n.vp.cs ELSE <<>>) ELSE <<>>,
                      titles |-> {l.must} \cup (IF l.must = "" \/ Page # <<>> THEN l.may ELSE {})]
RECURSIVE Items(_, _, _, _, _)
Items(n, p, h, l, d) ==
  LET hh == Inh(n, h)  gone == "doc" \in (h \cup Mark(n)) IN
  CASE n.t = "opt" -> IF gone THEN {} ELSE {Item(n.ns[1], n, l, d)}
    [] n.t \in {"bopt", "flag"} -> IF gone THEN {} ELSE {Item(n.ns[1], n, l, IF d.k = "m" THEN d ELSE None)}
    [] n.t = "nflag" -> IF gone THEN {} ELSE {Item(n.pos[1], n, l, IF d.k = "m" THEN d ELSE None)}
    [] n.t = "arg" -> IF gone THEN {} ELSE {Item(n.vp.mv, n, l, d)}
    [] n.t = "cmd" ->
         IF p # <<>> /\ p[1] = n.nm THEN Items(n.c, Tail(p), h, [must |-> "", may |-> l.may \cup {l.must}], Blur(d))
         ELSE IF gone THEN {} ELSE {[Item(n.nm, n, l, IF d.k = "m" THEN d ELSE None) EXCEPT !.desc = IF n.brief # "" THEN n.brief ELSE n.desc]}
    [] n.t = "obj" -> UNION {Items(n.cs[i], p, hh, Lab(n, l), Field(d, n.ks[i])) : i \in 1..Len(n.cs)}
    [] n.t \in {"tup", "seq"} -> UNION {Items(n.cs[i], p, hh, Lab(n, l), Elem(d, i)) : i \in 1..Len(n.cs)}
    [] n.t \in {"merge", "concat", "or", "lm"} -> UNION {Items(n.cs[i], p, hh, Lab(n, l), Blur(d)) : i \in 1..Len(n.cs)}
    [] n.t = "cond" -> UNION {Items(Kids(n)[i], p, hh, l, Open) : i \in 1..Len(Kids(n))}
    [] n.t = "dflt" -> Items(n.c, p, hh, l, IF d.k = "m" THEN d ELSE IF n.dm # "" THEN [k |-> "m", v |-> n.dm] ELSE IF d.k = "none" THEN n.dv ELSE d)
    [] n.t \in {"optional", "nonempty"} -> Items(n.c, p, hh, l, d)
    [] n.t = "group" -> Items(n.c, p, hh, Lab(n, l), d)
    [] n.t = "map" -> Items(n.c, p, hh, l, IF d.k = "m" THEN d ELSE None)
    [] n.t = "multi" -> Items(n.c, p, hh, l, IF d.k = "a" THEN (IF Len(d.e) = 0 THEN None ELSE IF Len(d.e) = 1 THEN d.e[1] ELSE Open) ELSE d)
    [] OTHER -> {}
(* conditionals and group() with commands: titles are not fixed *)
RECURSIVE Plain(_)
Plain(n) == n.t # "cond" /\ \A i \in 1..Len(Kids(n)) : Plain(Kids(n)[i])
RECURSIVE HasCmd(_)
HasCmd(n) == n.t = "cmd" \/ \E i \in 1..Len(Kids(n)) : HasCmd(Kids(n)[i])
(* the command entered last, reached only through parts that pass its texts on *)
RECURSIVE Reach(_, _)
Reach(n, p) == IF n.t = "cmd" THEN (IF n.nm # p[1] THEN <<>> ELSE IF Len(p) = 1 THEN <<n>> ELSE Reach(n.c, Tail(p)))
               ELSE IF n.t \in {"or", "lm"} THEN (LET I == {i \in 1..Len(n.cs) : Enters(n.cs[i], p[1])} IN IF I = {} THEN <<>> ELSE Reach(n.cs[CHOOSE i \in I : TRUE], p))
               ELSE IF n.t \in {"map", "group", "nonempty"} THEN Reach(n.c, p) ELSE <<>>
RECURSIVE Leafy(_)
Leafy(n) == n.t \in {"opt", "bopt", "flag", "nflag", "arg", "pass", "cmd", "or", "lm", "cond", "merge"} \/ (n.t \in {"optional", "dflt", "map", "group", "multi", "nonempty"} /\ Leafy(n.c))
About == IF Page = <<>> THEN <<>> ELSE
         LET r == Reach(G, Page) IN
         IF r = <<>> THEN <<>> ELSE IF Leafy(r[1].c) THEN <<>> ELSE <<[brief |-> r[1].brief, desc |-> r[1].desc, foot |-> r[1].foot]>>
Say2 == PrintT("@@" \o ToJson([ix |-> ix, path |-> path, crowded |-> Crowded(G), plain |-> Plain(G), about |-> About,
                               items |-> SetToSeq(Items(NoAlternatives(G, path), Page, {}, [must |-> "", may |-> {}], None))]))
Next2 == Say2 /\ (IF Len(path) < MaxDepth THEN Clear(G, path) ELSE FALSE) /\ \E m \in Inside(G, path) : \E c \in First(m) : Enter(c)
Spec2 == Init /\ [][Next2]_vars
(* every visible item is described exactly once *)
Once == \A x, y \in Items(G, path, {}, [must |-> "", may |-> {}], None) : x.id = y.id => x = y
=============================================================================
