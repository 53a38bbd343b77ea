------------------------------ MODULE Optique ------------------------------
(***************************************************************************)
(* Operational specification of the @optique/core parser machine.          *)
(*                                                                         *)
(* A grammar is an abstract syntax tree (a record with field `t`).  A run  *)
(* is the loop of parse(): the root parser is applied to the remaining     *)
(* buffer until the buffer is empty, a step fails or a step makes no       *)
(* progress; then the final state is completed into a value.               *)
(*                                                                         *)
(* Parse(n, st, buf, term) is one step of node n; Complete(n, st) turns    *)
(* its state into a value.  States and values are tagged records, so that  *)
(* any two of them are comparable.                                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Strings

----------------------------------------------------------------------------
(* Values *)
VU      == [k |-> "u", v |-> ""]
VS(s)   == [k |-> "s", v |-> s]
VI(i)   == [k |-> "i", v |-> ToString(i)]
VB(b)   == [k |-> "b", v |-> IF b THEN "true" ELSE "false"]
VA(e)   == [k |-> "a", e |-> e]
VO(f)   == [k |-> "o", f |-> f]           \* f: sequence of [n, v]

RECURSIVE ValEq(_, _)
ValEq(a, b) ==
  IF a.k # b.k THEN FALSE
  ELSE CASE a.k = "a" -> /\ Len(a.e) = Len(b.e)
                         /\ \A i \in 1..Len(a.e) : ValEq(a.e[i], b.e[i])
         [] a.k = "o" -> /\ Len(a.f) = Len(b.f)
                         /\ \A i \in 1..Len(a.f) : \E j \in 1..Len(b.f) :
                              a.f[i].n = b.f[j].n /\ ValEq(a.f[i].v, b.f[j].v)
         [] OTHER     -> a.v = b.v

RECURSIVE CountStr(_, _)
CountStr(v, s) ==
  CASE v.k = "a" -> LET F[i \in 0..Len(v.e)] == IF i = 0 THEN 0 ELSE F[i-1] + CountStr(v.e[i], s)
                    IN F[Len(v.e)]
    [] v.k = "o" -> LET F[i \in 0..Len(v.f)] == IF i = 0 THEN 0 ELSE F[i-1] + CountStr(v.f[i].v, s)
                    IN F[Len(v.f)]
    [] v.k = "s" -> IF v.v = s THEN 1 ELSE 0
    [] OTHER     -> 0

----------------------------------------------------------------------------
(* Value parsers: [k: "str" | "choice" | "int"].  The result is a state. *)
Bad      == [k |-> "v", ok |-> FALSE, val |-> VU]
Good(v)  == [k |-> "v", ok |-> TRUE, val |-> v]

VPParse(vp, tok) ==
  CASE vp.k = "str"    -> Good(VS(tok))
    [] vp.k = "choice" -> IF \E i \in 1..Len(vp.cs) : vp.cs[i] = tok THEN Good(VS(tok)) ELSE Bad
    [] vp.k = "int"    ->
         LET neg  == StartsWith(tok, "-")
             body == IF neg THEN Drop(tok, 1) ELSE tok
         IN IF ~AllDigits(body) THEN Bad
            ELSE LET m == NatOf(body)
                     x == IF neg THEN -m ELSE m
                 IN IF x < vp.min \/ x > vp.max THEN Bad ELSE Good(VI(x))

----------------------------------------------------------------------------
(* Parser states *)
NIL == [k |-> "nil"]

(* Results of a step *)
Fail(c) == [ok |-> FALSE, st |-> NIL, buf |-> <<>>, term |-> FALSE, cons |-> <<>>,
            chg |-> FALSE, prov |-> FALSE, n |-> c]
Succ(st, buf, term, cons, chg) ==
  [ok |-> TRUE, st |-> st, buf |-> buf, term |-> term, cons |-> cons,
   chg |-> chg, prov |-> FALSE, n |-> Len(cons)]

DropN(s, i) == IF i >= Len(s) THEN <<>> ELSE SubSeq(s, i + 1, Len(s))

IsOptionLike(tok) ==          \* /^--?[a-z0-9-]+$/i
  Len(tok) >= 2 /\ Ch(tok, 1) = "-" /\ AllIn(tok, 2, Alnum \cup {"-"})
PassLike(tok) ==              \* /^-[a-z0-9-]|^--[a-z0-9-]+/i
  Len(tok) >= 2 /\ Ch(tok, 1) = "-" /\ Ch(tok, 2) \in (Alnum \cup {"-"})
EqualsLike(tok) ==            \* /^--[a-z0-9-]+=/i
  LET p == FindCh(tok, "=", 1)
  IN p > 3 /\ StartsWith(tok, "--") /\ \A i \in 3..(p - 1) : Ch(tok, i) \in (Alnum \cup {"-"})

JoinedCapable(nm) == StartsWith(nm, "--") \/ StartsWith(nm, "/") \/ (StartsWith(nm, "-") /\ Len(nm) > 2)
JoinPrefix(nm)    == IF StartsWith(nm, "/") THEN nm \o ":" ELSE nm \o "="
IsShort(nm)       == Len(nm) = 2 /\ Ch(nm, 1) = "-" /\ Ch(nm, 2) # "-"

ToSet(s) == {s[i] : i \in 1..Len(s)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE FlattenSeq(_)
FlattenSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeq(Tail(ss))
MapSeq(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
PrioOrder(ps) ==
  SortSeq([i \in 1..Len(ps) |-> i],
          LAMBDA a, b : ps[a] > ps[b] \/ (ps[a] = ps[b] /\ a < b))

----------------------------------------------------------------------------
(* Usage terms: what construction-time checks and seq() look at. *)
UOpt(ns, mv, hid) == [ty |-> "option", names |-> ToSet(ns), mv |-> mv, hid |-> hid]
UArg    == [ty |-> "argument"]
UCmd(ns, hid) == [ty |-> "command", names |-> ToSet(ns), hid |-> hid]
UOpt0(ts)     == [ty |-> "optional", ts |-> ts]
UMulti(ts, m) == [ty |-> "multiple", ts |-> ts, min |-> m]
UExcl(as)     == [ty |-> "exclusive", as |-> as]
USeq(ts)      == [ty |-> "sequence", ts |-> ts]
UOther        == [ty |-> "other"]

RECURSIVE AppendLiteral(_)
AppendLiteral(us) ==
  IF us = <<>> THEN <<>>
  ELSE LET x == Head(us)
           y == CASE x.ty = "option" /\ x.mv -> <<[x EXCEPT !.mv = FALSE], UOther>>
                  [] x.ty \in {"optional", "multiple", "sequence"} -> <<[x EXCEPT !.ts = AppendLiteral(x.ts)]>>
                  [] x.ty = "exclusive" -> <<[x EXCEPT !.as = [i \in 1..Len(x.as) |-> AppendLiteral(x.as[i])]]>>
                  [] OTHER -> <<x>>
       IN y \o AppendLiteral(Tail(us))

(* option names anywhere in a usage except behind a command (the command's *)
(* own terms follow it in the same list, so they are included)             *)
RECURSIVE UsOptNames(_)
UsOptNames(us) ==
  UNION {LET x == us[i] IN
         CASE x.ty = "option" -> x.names
           [] x.ty \in {"optional", "multiple", "sequence"} -> UsOptNames(x.ts)
           [] x.ty = "exclusive" -> UNION {UsOptNames(x.as[j]) : j \in 1..Len(x.as)}
           [] OTHER -> {} : i \in 1..Len(us)}
RECURSIVE UsCmdNames(_)
UsCmdNames(us) ==
  UNION {LET x == us[i] IN
         CASE x.ty = "command" -> x.names
           [] x.ty \in {"optional", "multiple", "sequence"} -> UsCmdNames(x.ts)
           [] x.ty = "exclusive" -> UNION {UsCmdNames(x.as[j]) : j \in 1..Len(x.as)}
           [] OTHER -> {} : i \in 1..Len(us)}

(* collectLeadingCandidates: [o: option names, c: command names, skip] *)
RECURSIVE LeadCand(_, _)
LeadCand(us, inclHidden) ==
  IF us = <<>> THEN [o |-> {}, c |-> {}, skip |-> TRUE]
  ELSE LET x == Head(us)
           rest == LeadCand(Tail(us), inclHidden)
           Cont(r) == [o |-> r.o \cup rest.o, c |-> r.c \cup rest.c, skip |-> rest.skip]
           Stop(r) == [r EXCEPT !.skip = FALSE]
       IN CASE x.ty = "option"   -> [o |-> IF inclHidden \/ ~x.hid THEN x.names ELSE {}, c |-> {}, skip |-> FALSE]
            [] x.ty = "command"  -> [c |-> IF inclHidden \/ ~x.hid THEN x.names ELSE {}, o |-> {}, skip |-> FALSE]
            [] x.ty = "argument" -> [o |-> {}, c |-> {}, skip |-> FALSE]
            [] x.ty = "optional" -> Cont(LeadCand(x.ts, inclHidden))
            [] x.ty = "multiple" -> LET r == LeadCand(x.ts, inclHidden)
                                    IN IF x.min = 0 THEN Cont(r) ELSE Stop(r)
            [] x.ty = "sequence" -> LET r == LeadCand(x.ts, inclHidden)
                                    IN IF r.skip THEN Cont(r) ELSE Stop(r)
            [] x.ty = "exclusive" ->
                 LET rs == {LeadCand(x.as[j], inclHidden) : j \in 1..Len(x.as)}
                     r  == [o |-> UNION {q.o : q \in rs}, c |-> UNION {q.c : q \in rs}, skip |-> TRUE]
                 IN IF \A q \in rs : q.skip THEN Cont(r) ELSE Stop(r)
            [] OTHER -> rest

(* collectLeadingJoinedOptionNames *)
RECURSIVE LeadJoined(_)
LeadJoined(us) ==
  IF us = <<>> THEN [o |-> {}, skip |-> TRUE]
  ELSE LET x == Head(us)
           rest == LeadJoined(Tail(us))
           Cont(r) == [o |-> r.o \cup rest.o, skip |-> rest.skip]
           Stop(r) == [r EXCEPT !.skip = FALSE]
       IN CASE x.ty = "option"   -> [o |-> IF x.mv THEN x.names ELSE {}, skip |-> FALSE]
            [] x.ty \in {"command", "argument"} -> [o |-> {}, skip |-> FALSE]
            [] x.ty = "optional" -> Cont(LeadJoined(x.ts))
            [] x.ty = "multiple" -> LET r == LeadJoined(x.ts) IN IF x.min = 0 THEN Cont(r) ELSE Stop(r)
            [] x.ty = "sequence" -> LET r == LeadJoined(x.ts) IN IF r.skip THEN Cont(r) ELSE Stop(r)
            [] x.ty = "exclusive" ->
                 LET rs == {LeadJoined(x.as[j]) : j \in 1..Len(x.as)}
                     r  == [o |-> UNION {q.o : q \in rs}, skip |-> TRUE]
                 IN IF \A q \in rs : q.skip THEN Cont(r) ELSE Stop(r)
            [] OTHER -> rest

(* collectRetainedLeadingCandidates: [o, j] *)
RECURSIVE Retained(_)
Retained(us) ==
  IF us = <<>> THEN [o |-> {}, j |-> {}]
  ELSE LET x == Head(us)
           rest == Retained(Tail(us))
           U(a, b) == [o |-> a.o \cup b.o, j |-> a.j \cup b.j]
           Lead(ts) == [o |-> LeadCand(ts, TRUE).o, j |-> LeadJoined(ts).o]
       IN CASE x.ty \in {"optional", "multiple"} -> U(U(Lead(x.ts), Retained(x.ts)), rest)
            [] x.ty = "sequence" -> U(Retained(x.ts), rest)
            [] x.ty = "exclusive" ->
                 LET inner == {Retained(x.as[j]) : j \in 1..Len(x.as)}
                     can   == \E j \in 1..Len(x.as) : LeadCand(x.as[j], TRUE).skip
                     lead  == IF can THEN {Lead(x.as[j]) : j \in 1..Len(x.as)} ELSE {}
                     all   == inner \cup lead
                 IN U([o |-> UNION {q.o : q \in all}, j |-> UNION {q.j : q \in all}], rest)
            [] OTHER -> rest

----------------------------------------------------------------------------
(* Static annotation of a grammar: priority, leading names, catch-all      *)
(* status, usage, priority order of the children.                          *)
SharedLead(cs) ==
  LET ord == PrioOrder([i \in 1..Len(cs) |-> cs[i].prio])
      blockedAt(p) == \E q \in 1..(p - 1) : cs[ord[q]].any
  IN UNION {IF blockedAt(p) THEN {nm \in cs[ord[p]].lead : StartsWith(nm, "-")}
            ELSE cs[ord[p]].lead : p \in 1..Len(ord)}
MaxPrio(cs) == IF cs = <<>> THEN 0 ELSE MaxOf({cs[i].prio : i \in 1..Len(cs)})
AnyOf(cs)   == \E i \in 1..Len(cs) : cs[i].any
UsFlat(cs)  == FlattenSeq([i \in 1..Len(cs) |-> cs[i].us])

RECURSIVE Init(_)
RECURSIVE CanSkip(_, _)
RECURSIVE AnnM(_, _)

(* children of a seq() that are reachable at its start: up to and          *)
(* including the first one that cannot be skipped                          *)
RECURSIVE SeqReach(_)
SeqReach(cs) == IF cs = <<>> THEN <<>>
                ELSE IF CanSkip(Head(cs), Init(Head(cs))) THEN <<Head(cs)>> \o SeqReach(Tail(cs))
                ELSE <<Head(cs)>>

(* sequenceLeadingCandidates: [o, j, c] over already annotated children *)
SeqCand(cs) ==
  LET r == SeqReach(cs)
      blocked(i) == \E q \in 1..(i - 1) : r[q].any
      o(i) == LeadCand(r[i].us, FALSE).o
      c(i) == IF ~blocked(i)
              THEN LeadCand(r[i].us, FALSE).c \cup {nm \in r[i].lead : nm \notin o(i)}
              ELSE {nm \in r[i].lead : nm \notin o(i) /\ StartsWith(nm, "-")}
  IN [o |-> UNION {o(i) : i \in 1..Len(r)},
      j |-> UNION {LeadJoined(r[i].us).o : i \in 1..Len(r)},
      c |-> UNION {c(i) : i \in 1..Len(r)}]

HidOf(n) == "hid" \in DOMAIN n /\ n.hid = "all"

RECURSIVE HasVP(_)
HasVP(n) == \/ "vp" \in DOMAIN n
            \/ "cs" \in DOMAIN n /\ \E i \in 1..Len(n.cs) : HasVP(n.cs[i])
            \/ "c" \in DOMAIN n /\ HasVP(n.c)
            \/ n.t = "cond" /\ (HasVP(n.d) \/ HasVP(n.def) \/ \E i \in 1..Len(n.bcs) : HasVP(n.bcs[i]))

AnnM(n, m) ==
  LET kids == IF "cs" \in DOMAIN n THEN [i \in 1..Len(n.cs) |-> AnnM(n.cs[i], m)] ELSE <<>>
      kid  == IF "c" \in DOMAIN n THEN AnnM(n.c, m) ELSE [t |-> "none"]
      asy  == m /\ HasVP(n)
      Mk(p, l, a, u) == [prio |-> p, lead |-> l, any |-> a, us |-> u, asy |-> asy]
      ord  == PrioOrder([i \in 1..Len(kids) |-> kids[i].prio])
      inh(u) == Mk(kid.prio, kid.lead, kid.any, u)
  IN CASE n.t = "opt"   -> n @@ Mk(10, ToSet(n.ns), FALSE, <<UOpt(n.ns, TRUE, HidOf(n))>>)
       [] n.t = "bopt"  -> n @@ Mk(10, ToSet(n.ns), FALSE, <<UOpt0(<<UOpt(n.ns, FALSE, HidOf(n))>>)>>)
       [] n.t = "flag"  -> n @@ Mk(10, ToSet(n.ns), FALSE, <<UOpt(n.ns, FALSE, HidOf(n))>>)
       [] n.t = "nflag" -> n @@ Mk(10, ToSet(n.pos) \cup ToSet(n.neg), FALSE, <<UOpt(n.pos \o n.neg, FALSE, HidOf(n))>>)
       [] n.t = "arg"   -> n @@ Mk(5, {}, TRUE, <<UArg>>) @@ [jn |-> {}]
       [] n.t = "pass"  -> n @@ Mk(-10, {}, FALSE, <<UOther>>)
       [] n.t = "const" -> n @@ Mk(0, {}, FALSE, <<>>)
       [] n.t = "fail"  -> n @@ Mk(0, {}, FALSE, <<>>)
       [] n.t = "cmd"   -> [n EXCEPT !.c = kid] @@
                           Mk(15, {n.nm} \cup ToSet(n.al), FALSE,
                              <<UCmd(<<n.nm>> \o n.al, HidOf(n))>> \o kid.us)
       [] n.t = "obj"   -> [n EXCEPT !.cs = kids] @@
                           Mk(MaxPrio(kids), SharedLead(kids), AnyOf(kids),
                              UsFlat([i \in 1..Len(kids) |-> kids[ord[i]]])) @@ [ord |-> ord]
       [] n.t = "tup"   -> [n EXCEPT !.cs = kids] @@
                           Mk(MaxPrio(kids), SharedLead(kids), AnyOf(kids),
                              UsFlat([i \in 1..Len(kids) |-> kids[ord[i]]])) @@ [ord |-> ord]
       [] n.t = "concat" -> [n EXCEPT !.cs = kids] @@
                           Mk(MaxPrio(kids), SharedLead(kids), AnyOf(kids), UsFlat(kids)) @@ [ord |-> ord]
       [] n.t = "merge" -> [n EXCEPT !.cs = kids] @@
                           Mk(MaxPrio(kids), SharedLead(kids), AnyOf(kids),
                              UsFlat([i \in 1..Len(kids) |-> kids[ord[i]]])) @@ [ord |-> ord]
       [] n.t = "seq"   ->
            LET r == SeqReach(kids)
                q == SeqCand(kids)
            IN [n EXCEPT !.cs = kids] @@
               Mk(MaxOf({0} \cup {r[i].prio : i \in 1..Len(r)}), q.o \cup q.j \cup q.c,
                  \E i \in 1..Len(r) : r[i].any, <<USeq(UsFlat(kids))>>)
       [] n.t \in {"or", "lm"} -> [n EXCEPT !.cs = kids] @@
                           Mk(MaxPrio(kids), UNION {kids[i].lead : i \in 1..Len(kids)}, AnyOf(kids),
                              <<UExcl([i \in 1..Len(kids) |-> kids[i].us])>>)
       [] n.t = "cond"  ->
            LET d   == AnnM(n.d, m)
                bs  == [i \in 1..Len(n.bcs) |-> AnnM(n.bcs[i], m)]
                df  == IF n.hasdef THEN AnnM(n.def, m) ELSE [t |-> "none"]
                us0 == [i \in 1..Len(bs) |-> AppendLiteral(d.us) \o bs[i].us]
                us1 == IF n.hasdef THEN us0 \o <<df.us>> ELSE us0
                us  == IF Len(us1) > 1 THEN <<UExcl(us1)>> ELSE us1[1]
            IN [n EXCEPT !.d = d, !.bcs = bs, !.def = df] @@
               Mk(MaxOf({d.prio} \cup {bs[i].prio : i \in 1..Len(bs)} \cup (IF n.hasdef THEN {df.prio} ELSE {})),
                  IF n.hasdef THEN d.lead \cup df.lead ELSE d.lead,
                  n.hasdef /\ df.any, us)
       [] n.t \in {"optional", "dflt"} -> [n EXCEPT !.c = kid] @@ Mk(kid.prio, kid.lead, FALSE, <<UOpt0(kid.us)>>)
       [] n.t = "multi" -> [n EXCEPT !.c = kid] @@ Mk(kid.prio, kid.lead, n.min > 0 /\ kid.any, <<UMulti(kid.us, n.min)>>)
       [] OTHER         -> [n EXCEPT !.c = kid] @@ inh(kid.us)      \* nonempty, map, group

(* Positional parsers do not take an option of the whole grammar (inside a *)
(* command or a conditional branch: of that) joined with a value: every    *)
(* argument node knows those prefixes (jn).                                                    *)
JoinedPrefixes(us) == {nm \o "=" : nm \in {x \in UsOptNames(us) : StartsWith(x, "--") \/ (StartsWith(x, "-") /\ Len(x) > 2)}}
RECURSIVE PushJ(_, _)
PushJ(n, jn) ==
  LET a == IF n.t = "arg" THEN [n EXCEPT !.jn = jn] ELSE n
      b == IF "cs" \in DOMAIN a THEN [a EXCEPT !.cs = [i \in 1..Len(a.cs) |-> PushJ(a.cs[i], jn)]] ELSE a
      c == IF "c" \in DOMAIN b THEN [b EXCEPT !.c = PushJ(b.c, IF n.t = "cmd" THEN JoinedPrefixes(b.c.us) ELSE jn)] ELSE b
  IN IF n.t # "cond" THEN c
     ELSE [c EXCEPT !.d = PushJ(n.d, jn),
                    !.bcs = [i \in 1..Len(n.bcs) |-> PushJ(n.bcs[i], JoinedPrefixes(n.bcs[i].us))],
                    !.def = IF n.hasdef THEN PushJ(n.def, JoinedPrefixes(n.def.us)) ELSE @]
AnnRoot(n, m) ==
  LET a == AnnM(n, m)
  IN PushJ(a, JoinedPrefixes(a.us))

(* Construction-time rejection of ambiguous grammars *)
RECURSIVE DupNames(_)          \* some name occurs in two of the sets
DupNames(ss) == \E i, j \in 1..Len(ss) : i < j /\ ss[i] \cap ss[j] # {}

LeadCmds(n) == n.lead \cap UsCmdNames(n.us)
DupReachable(cs) ==            \* checkDuplicateReachableLeadingCommandNames
  LET blocked(p) == \E q \in 1..Len(cs) : cs[q].any /\ cs[q].prio > p
      higher(p)  == UNION {LeadCmds(cs[q]) : q \in {q \in 1..Len(cs) : cs[q].prio > p}}
      open(i)    == IF blocked(cs[i].prio) THEN {} ELSE LeadCmds(cs[i]) \ higher(cs[i].prio)
  IN \E i, j \in 1..Len(cs) : i < j /\ open(i) \cap open(j) # {}

RECURSIVE SeqDup(_, _)         \* checkSequentialDuplicateOptionNames
SeqDup(cs, active) ==
  IF cs = <<>> THEN FALSE
  ELSE LET x == Head(cs)
           o == LeadCand(x.us, TRUE).o
           a1 == active \cup o
           a2 == IF CanSkip(x, Init(x)) THEN a1 ELSE {}
       IN \/ o \cap active # {}
          \/ SeqDup(Tail(cs), a2 \cup Retained(x.us).o)

RECURSIVE Rejected(_)          \* n: annotated grammar
Rejected(n) ==
  LET kidsBad == IF "cs" \in DOMAIN n THEN \E i \in 1..Len(n.cs) : Rejected(n.cs[i]) ELSE FALSE
      OptDup  == DupNames([i \in 1..Len(n.cs) |-> UsOptNames(n.cs[i].us)])
  IN CASE n.t \in {"obj", "merge"} -> kidsBad \/ OptDup \/ DupReachable(n.cs)
       [] n.t = "tup"    -> kidsBad \/ OptDup
       [] n.t = "concat" -> kidsBad
       [] n.t = "seq"    -> kidsBad \/ SeqDup(n.cs, {})
       [] n.t \in {"or", "lm"} -> kidsBad \/ DupNames([i \in 1..Len(n.cs) |-> LeadCmds(n.cs[i])])
       [] n.t = "cond"   -> Rejected(n.d) \/ (\E i \in 1..Len(n.bcs) : Rejected(n.bcs[i]))
                            \/ (n.hasdef /\ Rejected(n.def))
       [] "c" \in DOMAIN n -> Rejected(n.c)
       [] OTHER -> FALSE

----------------------------------------------------------------------------
(* Initial states *)
Init(n) ==
  CASE n.t \in {"opt", "flag", "nflag", "arg", "cmd", "or", "lm", "optional", "dflt", "fail"} -> NIL
    [] n.t = "const" -> [k |-> "const"]
    [] n.t = "bopt"  -> Good(VB(FALSE))
    [] n.t = "pass"  -> [k |-> "pass", p |-> <<>>]
    [] n.t \in {"obj", "merge"} -> [k |-> "rec", s |-> [i \in 1..Len(n.cs) |-> Init(n.cs[i])]]
    [] n.t \in {"tup", "concat"} -> [k |-> "tup", s |-> [i \in 1..Len(n.cs) |-> Init(n.cs[i])]]
    [] n.t = "seq"   -> [k |-> "seq", at |-> 1, s |-> [i \in 1..Len(n.cs) |-> Init(n.cs[i])]]
    [] n.t = "multi" -> [k |-> "list", s |-> <<>>]
    [] n.t = "cond"  -> [k |-> "cond", ds |-> Init(n.d), sel |-> -1, bs |-> NIL, hasbs |-> FALSE, spec |-> FALSE]
    [] OTHER         -> Init(n.c)

Terminal(st) == st.k = "v"

(* unwrapMultipleItemState: peel one-element arrays *)
RECURSIVE Unw(_)
Unw(st) == CASE st.k = "some" -> Unw(st.o)
             [] st.k \in {"list", "tup"} /\ Len(st.s) = 1 -> Unw(st.s[1])
             [] OTHER -> st

CanSkip(n, st) ==
  CASE n.t = "opt"   -> Terminal(st)
    [] n.t = "bopt"  -> TRUE
    [] n.t = "flag"  -> Terminal(st)
    [] n.t = "nflag" -> st # NIL
    [] n.t = "arg"   -> Terminal(st)
    [] n.t = "pass"  -> TRUE
    [] n.t = "const" -> TRUE
    [] n.t = "fail"  -> FALSE
    [] n.t = "cmd"   -> CASE st.k = "nil" -> FALSE
                          [] st.k = "cm"  -> CanSkip(n.c, Init(n.c))
                          [] OTHER        -> CanSkip(n.c, st.c)
    [] n.t \in {"obj", "tup", "concat", "merge"} -> \A i \in 1..Len(n.cs) : CanSkip(n.cs[i], st.s[i])
    [] n.t = "seq"   -> \A i \in st.at..Len(n.cs) : CanSkip(n.cs[i], st.s[i])
    [] n.t \in {"or", "lm"} ->
         IF st.k = "ex" THEN CanSkip(n.cs[st.i], st.x)
         ELSE n.t = "or" /\ \E i \in 1..Len(n.cs) : CanSkip(n.cs[i], Init(n.cs[i]))
    [] n.t = "cond"  -> FALSE
    [] n.t \in {"optional", "dflt"} -> IF st.k = "some" THEN CanSkip(n.c, st.o) ELSE TRUE
    [] n.t = "multi" ->
         /\ Len(st.s) >= n.min
         /\ ~(LET cur == st.s[Len(st.s)]
              IN Len(st.s) > 0 /\ cur # NIL /\ ~Terminal(Unw(cur))
                 /\ (IF n.c.t = "cmd" /\ Unw(cur).k = "cm" THEN TRUE ELSE ~CanSkip(n.c, cur)))
    [] n.t = "nonempty" -> IF st = Init(n.c) THEN FALSE ELSE CanSkip(n.c, st)
    [] OTHER -> CanSkip(n.c, st)

----------------------------------------------------------------------------
RECURSIVE Parse(_, _, _, _)
(* Complete(n, st, pr): pr marks the completability probe that object()    *)
(* makes while parsing in asynchronous mode.                               *)
RECURSIVE Complete(_, _, _)

COk(v) == [ok |-> TRUE, val |-> v]
CFail  == [ok |-> FALSE, val |-> VU]

(* --- primitives --- *)
POpt(n, st, buf, term) ==
  IF term \/ buf = <<>> THEN Fail(0)
  ELSE LET tok == Head(buf)
           dup == Terminal(st)
           js  == {i \in 1..Len(n.ns) : JoinedCapable(n.ns[i]) /\ StartsWith(tok, JoinPrefix(n.ns[i]))}
       IN IF tok = "--" THEN Succ(st, Tail(buf), TRUE, <<"--">>, FALSE)
          ELSE IF \E i \in 1..Len(n.ns) : n.ns[i] = tok
          THEN IF dup \/ Len(buf) < 2 THEN Fail(1)
               ELSE Succ(VPParse(n.vp, buf[2]), DropN(buf, 2), term, SubSeq(buf, 1, 2), TRUE)
          ELSE IF js # {}
          THEN IF dup THEN Fail(1)
               ELSE LET nm == n.ns[CHOOSE i \in js : \A j \in js : i <= j]
                    IN Succ(VPParse(n.vp, Drop(tok, Len(nm) + 1)), Tail(buf), term, <<tok>>, TRUE)
          ELSE Fail(0)

(* presence-only options: option() without value, flag(), negatableFlag() *)
PPresence(ns, st, dup, valOf(_), plusJoin, dupJoined, buf, term) ==
  IF term \/ buf = <<>> THEN Fail(0)
  ELSE LET tok == Head(buf)
           New(nm) == IF plusJoin THEN [k |-> "nv", ok |-> TRUE, val |-> valOf(nm)] ELSE Good(valOf(nm))
           sh  == {i \in 1..Len(ns) : IsShort(ns[i]) /\ StartsWith(tok, ns[i]) /\ Ch(tok, 3) # "-"}
       IN IF tok = "--" THEN Succ(st, Tail(buf), TRUE, <<"--">>, FALSE)
          ELSE IF \E i \in 1..Len(ns) : ns[i] = tok
          THEN IF dup THEN Fail(1) ELSE Succ(New(tok), Tail(buf), term, <<tok>>, TRUE)
          ELSE IF \E i \in 1..Len(ns) : (JoinedCapable(ns[i]) \/ (plusJoin /\ StartsWith(ns[i], "+")))
                                        /\ StartsWith(tok, JoinPrefix(ns[i]))
          THEN Fail(1)
          ELSE IF sh # {}
          THEN IF dup THEN Fail(1)
               ELSE LET nm == ns[CHOOSE i \in sh : \A j \in sh : i <= j]
                    IN Succ(New(nm), <<"-" \o Drop(tok, 2)>> \o Tail(buf), term, <<nm>>, TRUE)
          ELSE Fail(0)

PArg(n, st, buf, term) ==
  IF buf = <<>> THEN Fail(0)
  ELSE LET dd == ~term /\ Head(buf) = "--"
           i  == IF dd THEN 1 ELSE 0
       IN IF ~term /\ ~dd /\ (IsOptionLike(Head(buf)) \/ \E p \in n.jn : StartsWith(Head(buf), p)) THEN Fail(0)
          ELSE IF Len(buf) < i + 1 THEN Fail(i)
          ELSE IF st # NIL THEN Fail(i)
          ELSE Succ(VPParse(n.vp, buf[i + 1]), DropN(buf, i + 1), term \/ dd, SubSeq(buf, 1, i + 1), TRUE)

PPass(n, st, buf, term) ==
  IF buf = <<>> THEN Fail(0)
  ELSE LET tok == Head(buf)
           Take(c) == Succ([st EXCEPT !.p = @ \o SubSeq(buf, 1, c)], DropN(buf, c), term, SubSeq(buf, 1, c), TRUE)
       IN IF n.fmt = "greedy" THEN Take(Len(buf))
          ELSE IF term THEN Fail(0)
          ELSE IF n.fmt = "equalsOnly" THEN IF EqualsLike(tok) THEN Take(1) ELSE Fail(0)
          ELSE IF ~PassLike(tok) THEN Fail(0)
          ELSE IF Contains(tok, "=") THEN Take(1)
          ELSE IF Len(buf) >= 2 /\ ~PassLike(buf[2]) THEN Take(2)
          ELSE Take(1)

PCmd(n, st, buf, term) ==
  IF st.k = "nil"
  THEN IF buf # <<>> /\ (Head(buf) = n.nm \/ \E i \in 1..Len(n.al) : n.al[i] = Head(buf))
       THEN Succ([k |-> "cm"], Tail(buf), term, <<Head(buf)>>, TRUE)
       ELSE Fail(0)
  ELSE LET r == Parse(n.c, IF st.k = "cm" THEN Init(n.c) ELSE st.c, buf, term)
       IN IF r.ok THEN [r EXCEPT !.st = [k |-> "cp", c |-> r.st], !.chg = TRUE] ELSE r

(* --- object(): greedy, restarting, in priority order --- *)
(* first child (in n.ord from position p) that consumes: [hit, r, err] *)
RECURSIVE FirstConsuming(_, _, _, _, _, _, _)
FirstConsuming(n, ord, p, sts, buf, term, err) ==
  IF p > Len(ord) THEN [hit |-> 0, r |-> Fail(0), err |-> err]
  ELSE LET i == ord[p]
           r == Parse(n.cs[i], sts[i], buf, term)
       IN IF r.ok /\ r.cons # <<>> THEN [hit |-> i, r |-> r, err |-> err]
          ELSE FirstConsuming(n, ord, p + 1, sts, buf, term,
                              IF ~r.ok /\ err < r.n THEN r.n ELSE err)

RECURSIVE ObjGreedy(_, _, _, _, _, _, _)
ObjGreedy(n, sts, buf, term, cons, used, err) ==
  IF buf = <<>> THEN [sts |-> sts, buf |-> buf, term |-> term, cons |-> cons, used |-> used, err |-> err]
  ELSE LET f == FirstConsuming(n, n.ord, 1, sts, buf, term, err)
       IN IF f.hit = 0
          THEN [sts |-> sts, buf |-> buf, term |-> term, cons |-> cons, used |-> used, err |-> f.err]
          ELSE ObjGreedy(n, [sts EXCEPT ![f.hit] = f.r.st], f.r.buf, f.r.term,
                         cons \o f.r.cons, used \cup {f.hit}, f.err)

RECURSIVE ObjZero(_, _, _, _, _, _, _)
ObjZero(n, p, sts, buf, term, used, chg) ==
  IF p > Len(n.ord) THEN [sts |-> sts, chg |-> chg]
  ELSE LET i == n.ord[p]
           c == n.cs[i]
       IN IF i \in used \/ c.lead # {} \/ c.any THEN ObjZero(n, p + 1, sts, buf, term, used, chg)
          ELSE LET r == Parse(c, sts[i], buf, term)
               IN IF r.ok /\ r.cons = <<>> /\ r.chg
                  THEN ObjZero(n, p + 1, [sts EXCEPT ![i] = r.st], buf, term, used, TRUE)
                  ELSE ObjZero(n, p + 1, sts, buf, term, used, chg)

PObj(n, st, buf, term) ==
  LET g == ObjGreedy(n, st.s, buf, term, <<>>, {}, 0)
      z == ObjZero(n, 1, g.sts, g.buf, g.term, g.used, FALSE)
      s2 == [k |-> "rec", s |-> z.sts]
  IN IF g.used # {} THEN Succ(s2, g.buf, g.term, g.cons, TRUE)
     ELSE IF g.buf = <<>> /\ \A i \in 1..Len(n.cs) : Complete(n.cs[i], z.sts[i], n.asy).ok
     THEN Succ(s2, g.buf, g.term, <<>>, z.chg)
     ELSE Fail(g.err)

(* --- tuple() / concat(): each child at most once per step --- *)
RECURSIVE FirstQuiet(_, _, _, _, _, _)     \* first child that succeeds or fails without consuming
FirstQuiet(n, ord, p, sts, buf, term) ==
  IF p > Len(ord) THEN [hit |-> 0, r |-> Fail(0)]
  ELSE LET r == Parse(n.cs[ord[p]], sts[ord[p]], buf, term)
       IN IF (r.ok /\ r.cons = <<>>) \/ (~r.ok /\ r.n < 1) THEN [hit |-> ord[p], r |-> r]
          ELSE FirstQuiet(n, ord, p + 1, sts, buf, term)

RECURSIVE TupLoop(_, _, _, _, _, _, _)
TupLoop(n, left, sts, buf, term, cons, chg) ==
  IF left = <<>> THEN Succ([k |-> "tup", s |-> sts], buf, term, cons, chg)
  ELSE LET f == FirstConsuming(n, left, 1, sts, buf, term, 0)
           Rest(i) == SelectSeq(left, LAMBDA x : x # i)
       IN IF f.hit # 0
          THEN TupLoop(n, Rest(f.hit), [sts EXCEPT ![f.hit] = f.r.st], f.r.buf, f.r.term, cons \o f.r.cons, TRUE)
          ELSE LET q == FirstQuiet(n, left, 1, sts, buf, term)
               IN IF q.hit = 0 THEN Fail(f.err)
                  ELSE IF q.r.ok
                  THEN TupLoop(n, Rest(q.hit), [sts EXCEPT ![q.hit] = q.r.st], buf, term, cons, TRUE)
                  ELSE TupLoop(n, Rest(q.hit), sts, buf, term, cons, chg)
PTup(n, st, buf, term) == TupLoop(n, n.ord, st.s, buf, term, <<>>, FALSE)

(* --- seq(): strictly in order --- *)
MatchesLead(tok, q) ==
  \/ tok \in q.o
  \/ \E nm \in q.j : (StartsWith(nm, "/") /\ StartsWith(tok, nm \o ":"))
                  \/ ((StartsWith(nm, "--") \/ (StartsWith(nm, "-") /\ Len(nm) > 2)) /\ StartsWith(tok, nm \o "="))
  \/ tok \in q.c

RetainedAt(us, st) ==
  IF Len(us) = 1 /\ us[1].ty = "optional" /\ st.k \in {"some", "tup", "list", "cm", "cp", "ex"}
  THEN Retained(us[1].ts) ELSE Retained(us)

(* After the terminator only commands are recognised by their name, and    *)
(* another -- is ordinary input.                                           *)
SeqLater(cs, term) ==
  LET c == SeqCand(cs)
  IN IF term THEN [o |-> {}, j |-> {}, c |-> c.c \ UNION {UsOptNames(cs[i].us) : i \in 1..Len(cs)}] ELSE c
SeqAdvance(n, i, sts, tok, term) ==
  /\ (tok = "--" /\ ~term) \/ MatchesLead(tok, SeqLater(SubSeq(n.cs, i + 1, Len(n.cs)), term))
  /\ CanSkip(n.cs[i], sts[i])
  /\ \/ tok = "--" /\ ~term
     \/ IF sts[i] = Init(n.cs[i])
        THEN ~MatchesLead(tok, SeqCand(<<n.cs[i]>>))
        ELSE LET r == RetainedAt(n.cs[i].us, sts[i])
             IN ~MatchesLead(tok, [o |-> r.o, j |-> r.j, c |-> {}])

RECURSIVE SeqLoop(_, _, _, _, _, _, _)
SeqLoop(n, at, sts, buf, term, cons, chg) ==
  LET Done == Succ([k |-> "seq", at |-> at, s |-> sts], buf, term, cons, chg)
  IN IF at > Len(n.cs) \/ buf = <<>> THEN Done
     ELSE IF SeqAdvance(n, at, sts, Head(buf), term)
     THEN IF Head(buf) = "--" /\ ~term THEN SeqLoop(n, at + 1, sts, Tail(buf), TRUE, Append(cons, "--"), TRUE)
          ELSE SeqLoop(n, at + 1, sts, buf, term, cons, TRUE)
     ELSE LET r == Parse(n.cs[at], sts[at], buf, term)
          IN IF ~r.ok
             THEN IF r.n > 0 \/ ~CanSkip(n.cs[at], sts[at]) THEN Fail(Len(cons) + r.n)
                  ELSE SeqLoop(n, at + 1, sts, buf, term, cons, TRUE)
             ELSE SeqLoop(n, IF r.cons # <<>> THEN at ELSE at + 1, [sts EXCEPT ![at] = r.st],
                          r.buf, r.term, cons \o r.cons, TRUE)
PSeq(n, st, buf, term) == SeqLoop(n, st.at, st.s, buf, term, <<>>, FALSE)

(* --- or() --- *)
Ex(i, r) == [k |-> "ex", i |-> i, x |-> r.st, xc |-> r.cons]
Wrap(i, r) == [r EXCEPT !.st = Ex(i, r), !.chg = TRUE, !.prov = FALSE]
(* the branch keeps every token it has consumed so far *)
Keep(st, i, r) ==
  [r EXCEPT !.st = [k |-> "ex", i |-> i, x |-> r.st,
                    xc |-> (IF st.k = "ex" /\ st.i = i THEN st.xc ELSE <<>>) \o r.cons],
            !.chg = TRUE, !.prov = FALSE]

ExOrder(n, st) ==
  IF st.k = "ex" THEN <<st.i>> \o SelectSeq([i \in 1..Len(n.cs) |-> i], LAMBDA x : x # st.i)
  ELSE [i \in 1..Len(n.cs) |-> i]
ExChild(n, st, i) == IF st.k = "ex" /\ st.i = i THEN st.x ELSE Init(n.cs[i])

(* switch from the active branch to branch i, whose step r consumed input *)
Switch(n, st, i, r, buf, term, isProv) ==
  LET chk == Parse(n.cs[i], Init(n.cs[i]), st.xc, term)
  IN IF ~(chk.ok /\ chk.cons = st.xc)
     THEN [sw |-> FALSE, r |-> Fail(Len(buf) - Len(r.buf))]
     ELSE LET rp == Parse(n.cs[i], chk.st, buf, term)
          IN IF ~rp.ok THEN [sw |-> TRUE, r |-> rp]
             ELSE [sw |-> TRUE,
                   r |-> [rp EXCEPT !.st = [k |-> "ex", i |-> i, x |-> rp.st, xc |-> st.xc \o rp.cons],
                                    !.chg = TRUE, !.prov = isProv]]

(* acc: [zi, zn, zr, pi, pr, pamb, err] *)
RECURSIVE OrLoop(_, _, _, _, _, _, _)
OrLoop(n, st, ord, p, buf, term, acc) ==
  IF p > Len(ord)
  THEN IF acc.zi # 0 /\ acc.zn = 1 /\ acc.err = 0 /\ buf = <<>>
       THEN [Wrap(acc.zi, acc.zr) EXCEPT !.buf = buf, !.term = term]
       ELSE IF acc.pi # 0
       THEN IF ~(st.k = "ex" /\ st.xc # <<>> /\ st.i # acc.pi)
            THEN [Keep(st, acc.pi, acc.pr) EXCEPT !.prov = TRUE]
            ELSE LET s == Switch(n, st, acc.pi, acc.pr, buf, term, TRUE)
                 IN IF s.sw THEN s.r ELSE Fail(acc.err)
       ELSE Fail(acc.err)
  ELSE LET i == ord[p]
           r == Parse(n.cs[i], ExChild(n, st, i), buf, term)
           Next(a) == OrLoop(n, st, ord, p + 1, buf, term, a)
           locked == st.k = "ex" /\ st.xc # <<>>
       IN IF r.ok /\ r.cons # <<>>
          THEN IF r.prov
               THEN IF locked /\ st.i = i THEN Next([acc EXCEPT !.pi = i, !.pr = r])
                    ELSE IF locked /\ acc.pi = st.i THEN Next(acc)
                    ELSE IF acc.pi = 0 /\ ~acc.pamb THEN Next([acc EXCEPT !.pi = i, !.pr = r])
                    ELSE Next([acc EXCEPT !.pi = 0, !.pamb = TRUE])
               ELSE IF st.k = "ex" /\ st.i # i
               THEN IF st.xc = <<>> THEN Wrap(i, r)
                    ELSE Switch(n, st, i, r, buf, term, FALSE).r
               ELSE Keep(st, i, r)
          ELSE IF r.ok /\ ~r.prov /\ n.cs[i].lead = {} /\ ~n.cs[i].any
          THEN Next([acc EXCEPT !.zi = IF @ = 0 THEN i ELSE @, !.zr = IF acc.zi = 0 THEN r ELSE @, !.zn = @ + 1])
          ELSE IF ~r.ok /\ acc.err < r.n THEN Next([acc EXCEPT !.err = r.n])
          ELSE Next(acc)
POr(n, st, buf, term) ==
  OrLoop(n, st, ExOrder(n, st), 1, buf, term,
         [zi |-> 0, zn |-> 0, zr |-> Fail(0), pi |-> 0, pr |-> Fail(0), pamb |-> FALSE, err |-> 0])

(* the unique alternative that matches without input, 0 if none or several *)
ZeroCand(n) ==
  LET Z == {i \in 1..Len(n.cs) : n.cs[i].lead = {} /\ ~n.cs[i].any
              /\ LET r == Parse(n.cs[i], Init(n.cs[i]), <<>>, FALSE) IN r.ok /\ ~r.prov}
  IN IF Cardinality(Z) = 1 THEN CHOOSE i \in Z : TRUE ELSE 0

(* --- longestMatch() --- *)
(* A branch other than the active one competes only if it also accepts     *)
(* every token consumed so far.                                            *)
RECURSIVE LmLoop(_, _, _, _, _, _)
LmLoop(n, st, i, buf, term, acc) ==       \* acc: [bi, br, bc, err]
  IF i > Len(n.cs)
  THEN IF acc.bi = 0 THEN Fail(acc.err)
       ELSE [acc.br EXCEPT !.st = [k |-> "ex", i |-> acc.bi, x |-> acc.br.st,
                                   xc |-> (IF st.k = "ex" THEN st.xc ELSE <<>>) \o acc.br.cons],
                           !.chg = TRUE, !.prov = FALSE]
  ELSE LET other == st.k = "ex" /\ st.xc # <<>> /\ st.i # i
           chk   == IF other THEN Parse(n.cs[i], Init(n.cs[i]), st.xc, term) ELSE Fail(0)
           out   == other /\ ~(chk.ok /\ chk.cons = st.xc)
           r     == Parse(n.cs[i], IF out THEN Init(n.cs[i]) ELSE IF other THEN chk.st ELSE ExChild(n, st, i),
                          buf, term)
           c     == Len(buf) - Len(r.buf)
           Bad2(m) == LmLoop(n, st, i + 1, buf, term, [acc EXCEPT !.err = IF @ < m THEN m ELSE @])
       IN IF out THEN Bad2(IF r.ok THEN c ELSE r.n)
          ELSE IF r.ok
          THEN IF acc.bi = 0 \/ c > acc.bc \/ (c = acc.bc /\ acc.br.prov /\ ~r.prov)
               THEN LmLoop(n, st, i + 1, buf, term, [acc EXCEPT !.bi = i, !.br = r, !.bc = c])
               ELSE LmLoop(n, st, i + 1, buf, term, acc)
          ELSE Bad2(r.n)
PLm(n, st, buf, term) ==
  LmLoop(n, st, 1, buf, term, [bi |-> 0, br |-> Fail(0), bc |-> 0, err |-> 0])

(* --- merge(): one child per step, in priority order --- *)
RECURSIVE MergeLoop(_, _, _, _, _, _, _)
MergeLoop(n, p, sts, buf, term, any, chg) ==
  IF p > Len(n.ord)
  THEN IF any THEN Succ([k |-> "rec", s |-> sts], buf, term, <<>>, chg) ELSE Fail(0)
  ELSE LET i == n.ord[p]
           r == Parse(n.cs[i], sts[i], buf, term)
       IN IF r.ok
          THEN IF r.cons # <<>>
               THEN Succ([k |-> "rec", s |-> [sts EXCEPT ![i] = r.st]], r.buf, r.term, r.cons, TRUE)
               ELSE MergeLoop(n, p + 1, [sts EXCEPT ![i] = r.st], r.buf, r.term, TRUE, TRUE)
          ELSE IF r.n < 1 THEN MergeLoop(n, p + 1, sts, buf, term, any, chg)
          ELSE r
PMerge(n, st, buf, term) == MergeLoop(n, 1, st.s, buf, term, FALSE, FALSE)

(* --- conditional() --- *)
BranchIdx(n, v) ==        \* 0 if the value names no branch
  IF v.k # "s" THEN 0
  ELSE LET B == {i \in 1..Len(n.bks) : n.bks[i] = v.v} IN IF B = {} THEN 0 ELSE CHOOSE i \in B : TRUE

CondDefault(n, st, buf, term, dcons) ==
  IF ~n.hasdef THEN Fail(0)
  ELSE LET r == Parse(n.def, IF st.hasbs THEN st.bs ELSE Init(n.def), buf, term)
       IN IF r.ok /\ (r.cons # <<>> \/ (dcons = 0 /\ buf = <<>>))
          THEN [r EXCEPT !.st = [st EXCEPT !.sel = 0, !.bs = r.st, !.hasbs = TRUE], !.chg = TRUE]
          ELSE IF ~r.ok /\ r.n > 0 THEN r
          ELSE Fail(0)

(* An asynchronous discriminator that got no input is not resolved while   *)
(* parsing: the only branch that can use the input is taken tentatively    *)
(* (and verified on completion), else the default branch.                  *)
SpecCond(n, st, d) ==
  LET r(i) == Parse(n.bcs[i], Init(n.bcs[i]), d.buf, d.term)
      R    == [i \in 1..Len(n.bcs) |-> r(i)]
      D    == {i \in DOMAIN R : R[i].ok /\ R[i].cons # <<>> /\ ~R[i].prov}
      P    == {i \in DOMAIN R : R[i].ok /\ R[i].cons # <<>> /\ R[i].prov}
      amb  == Cardinality(D) > 1 \/ (D # {} /\ P # {}) \/ Cardinality(P) > 1
      hit  == IF amb \/ (D = {} /\ P = {}) THEN 0 ELSE CHOOSE i \in D \cup P : TRUE
      F    == {i \in DOMAIN R : ~R[i].ok /\ R[i].n > 0}
      t    == IF n.hasdef /\ ~amb THEN Parse(n.def, IF st.hasbs THEN st.bs ELSE Init(n.def), d.buf, d.term) ELSE Fail(0)
      wait == IF t.ok /\ d.buf = <<>> THEN [st EXCEPT !.ds = d.st, !.bs = t.st, !.hasbs = TRUE]
              ELSE [st EXCEPT !.ds = d.st]
  IN IF hit # 0
     THEN [R[hit] EXCEPT !.st = [st EXCEPT !.ds = d.st, !.sel = hit, !.bs = R[hit].st, !.hasbs = TRUE, !.spec = TRUE],
                         !.chg = TRUE, !.prov = TRUE]
     ELSE IF t.ok /\ t.cons # <<>>
     THEN [t EXCEPT !.st = [st EXCEPT !.sel = 0, !.bs = t.st, !.hasbs = TRUE], !.chg = TRUE]
     ELSE IF ~t.ok /\ t.n > 0 THEN t
     ELSE IF F # {} /\ ~amb THEN R[CHOOSE i \in F : \A j \in F : R[j].n < R[i].n \/ (R[j].n = R[i].n /\ i <= j)]
     ELSE [Succ(wait, d.buf, d.term, <<>>, TRUE) EXCEPT !.prov = TRUE]

PCond(n, st, buf, term) ==
  IF st.sel >= 0
  THEN LET r == Parse(IF st.sel = 0 THEN n.def ELSE n.bcs[st.sel], st.bs, buf, term)
       IN IF r.ok THEN [r EXCEPT !.st = [st EXCEPT !.bs = r.st], !.chg = TRUE,
                                 !.prov = n.asy /\ (st.spec \/ r.prov)] ELSE r
  ELSE LET d == Parse(n.d, st.ds, buf, term)
       IN IF ~d.ok THEN CondDefault(n, st, buf, term, d.n)
          ELSE IF d.cons = <<>> /\ n.d.asy THEN SpecCond(n, st, d)
          ELSE LET c == Complete(n.d, d.st, n.asy)
                   b == IF c.ok THEN BranchIdx(n, c.val) ELSE 0
                   Sel(bst) == [st EXCEPT !.ds = d.st, !.sel = b, !.bs = bst, !.hasbs = TRUE]
               IN IF b # 0
                  THEN LET r == Parse(n.bcs[b], Init(n.bcs[b]), d.buf, d.term)
                       IN IF r.ok
                          THEN [Succ(Sel(r.st), r.buf, r.term, d.cons \o r.cons, TRUE)
                                EXCEPT !.prov = r.prov \/ (d.cons = <<>> /\ r.cons = <<>>
                                                           /\ (n.bcs[b].lead # {} \/ n.bcs[b].any))]
                          ELSE IF d.cons # <<>> THEN Succ(Sel(Init(n.bcs[b])), d.buf, d.term, d.cons, TRUE)
                          ELSE r
                  ELSE IF d.cons # <<>> THEN Fail(Len(d.cons))
                  ELSE CondDefault(n, st, buf, term, 0)

(* --- modifiers --- *)
POptional(n, st, buf, term) ==
  LET inner == IF st.k = "some" THEN st.o ELSE Init(n.c)
      r == Parse(n.c, inner, buf, term)
  IN IF r.ok
     THEN IF r.chg \/ r.cons = <<>> THEN [r EXCEPT !.st = [k |-> "some", o |-> r.st], !.chg = TRUE]
          ELSE [r EXCEPT !.st = st, !.chg = FALSE]
     ELSE IF r.n = 0 THEN Succ(st, buf, term, <<>>, FALSE)
     ELSE r

IsObjState(st) == st.k \in {"rec", "tup", "seq", "list", "cond", "pass", "v", "nv"}
RECURSIVE Bare(_)
Bare(n) == IF n.t \in {"map", "group", "nonempty"} THEN Bare(n.c) ELSE n
Extendable(n, cur) ==
  /\ cur # NIL
  /\ ~Terminal(Unw(cur))
  /\ (Bare(n.c).t = "cmd" /\ Unw(cur).k = "cm") \/ ~CanSkip(n.c, cur)

PMulti(n, st, buf, term) ==
  LET len  == Len(st.s)
      cur  == IF len = 0 THEN NIL ELSE st.s[len]
      ext  == len > 0 /\ Extendable(n, cur)
      room == n.max < 0 \/ len < n.max
      orig == IF ext THEN cur ELSE Init(n.c)
      Same == Succ(st, buf, term, <<>>, FALSE)
      r1   == Parse(n.c, orig, buf, term)
      retry == ~r1.ok /\ r1.n = 0 /\ ext /\ room
      r2   == IF retry THEN Parse(n.c, Init(n.c), buf, term) ELSE r1
      added == ~ext \/ retry
      ident == ~r2.chg /\ ~retry
      unstarted == Unw(r2.st) = NIL
                   \/ (/\ orig # NIL /\ Unw(r2.st) = Unw(orig) /\ IsObjState(Unw(orig))
                       /\ (~r2.chg \/ Unw(r2.st) # r2.st))
  IN IF ~ext /\ ~room THEN Same
     ELSE IF ~r2.ok
     THEN IF r2.n = 0 /\ n.min = 0 /\ buf = <<>> THEN Same ELSE r2
     ELSE IF added /\ r2.cons = <<>> /\ r2.term = term /\ unstarted
     THEN [r2 EXCEPT !.st = st, !.chg = FALSE, !.prov = FALSE]
     ELSE IF ident /\ r2.cons # <<>> /\ (~added \/ r2.term # term)
     THEN [r2 EXCEPT !.st = st, !.chg = FALSE]
     ELSE [r2 EXCEPT !.st = [k |-> "list",
                             s |-> IF added THEN Append(st.s, r2.st) ELSE [st.s EXCEPT ![len] = r2.st]],
                     !.chg = TRUE]

Parse(n, st, buf, term) ==
  CASE n.t = "opt"   -> POpt(n, st, buf, term)
    [] n.t = "bopt"  -> PPresence(n.ns, st, st.ok /\ st.val.v = "true", LAMBDA nm : VB(TRUE), FALSE, TRUE, buf, term)
    [] n.t = "flag"  -> PPresence(n.ns, st, Terminal(st), LAMBDA nm : VB(TRUE), FALSE, FALSE, buf, term)
    [] n.t = "nflag" -> PPresence(n.pos \o n.neg, st, st # NIL,
                                  LAMBDA nm : VB(\E i \in 1..Len(n.pos) : n.pos[i] = nm), TRUE, FALSE, buf, term)
    [] n.t = "arg"   -> PArg(n, st, buf, term)
    [] n.t = "pass"  -> PPass(n, st, buf, term)
    [] n.t = "const" -> Succ(st, buf, term, <<>>, FALSE)
    [] n.t = "fail"  -> Fail(0)
    [] n.t = "cmd"   -> PCmd(n, st, buf, term)
    [] n.t = "obj"   -> PObj(n, st, buf, term)
    [] n.t \in {"tup", "concat"} -> PTup(n, st, buf, term)
    [] n.t = "seq"   -> PSeq(n, st, buf, term)
    [] n.t = "or"    -> POr(n, st, buf, term)
    [] n.t = "lm"    -> PLm(n, st, buf, term)
    [] n.t = "merge" -> PMerge(n, st, buf, term)
    [] n.t = "cond"  -> PCond(n, st, buf, term)
    [] n.t \in {"optional", "dflt"} -> POptional(n, st, buf, term)
    [] n.t = "multi" -> PMulti(n, st, buf, term)
    [] n.t = "nonempty" -> LET r == Parse(n.c, st, buf, term)
                           IN IF r.ok /\ r.cons = <<>> THEN Fail(0) ELSE r
    [] OTHER         -> Parse(n.c, st, buf, term)          \* map, group

----------------------------------------------------------------------------
(* Completion *)
CompleteAll(n, sts, pr) == [i \in 1..Len(n.cs) |-> Complete(n.cs[i], sts[i], pr)]

Complete(n, st, pr) ==
  CASE n.t \in {"opt", "bopt", "flag", "nflag", "arg"} ->
         IF st.k \in {"v", "nv"} /\ st.ok THEN COk(st.val) ELSE CFail
    [] n.t = "pass"  -> COk(VA([i \in 1..Len(st.p) |-> VS(st.p[i])]))
    [] n.t = "const" -> COk(VS(n.v))
    [] n.t = "fail"  -> CFail
    [] n.t = "cmd"   ->
         CASE st.k = "nil" -> CFail
           [] st.k = "cm"  -> LET r == Parse(n.c, Init(n.c), <<>>, FALSE)
                              IN Complete(n.c, IF r.ok THEN r.st ELSE Init(n.c), pr)
           [] OTHER        -> Complete(n.c, st.c, pr)
    [] n.t = "obj"   ->
         LET r == CompleteAll(n, st.s, pr)
         IN IF \A i \in 1..Len(r) : r[i].ok
            THEN COk(VO([i \in 1..Len(r) |-> [n |-> n.ks[i], v |-> r[i].val]])) ELSE CFail
    [] n.t \in {"tup", "seq"} ->
         LET r == CompleteAll(n, st.s, pr)
         IN IF \A i \in 1..Len(r) : r[i].ok THEN COk(VA([i \in 1..Len(r) |-> r[i].val])) ELSE CFail
    [] n.t = "concat" ->
         LET r == CompleteAll(n, st.s, pr)
         IN IF \A i \in 1..Len(r) : r[i].ok
            THEN COk(VA(FlattenSeq([i \in 1..Len(r) |-> IF r[i].val.k = "a" THEN r[i].val.e ELSE <<r[i].val>>])))
            ELSE CFail
    [] n.t = "merge" ->
         LET r == CompleteAll(n, st.s, pr)
         IN IF \A i \in 1..Len(r) : r[i].ok
            THEN COk(VO(FlattenSeq([i \in 1..Len(r) |-> IF r[i].val.k = "o" THEN r[i].val.f ELSE <<>>])))
            ELSE CFail
    [] n.t \in {"or", "lm"} ->
         IF st.k = "ex" THEN Complete(n.cs[st.i], st.x, pr)
         ELSE LET z == ZeroCand(n)
              IN IF z = 0 \/ (pr /\ n.cs[z].asy) THEN CFail
                 ELSE Complete(n.cs[z], Parse(n.cs[z], Init(n.cs[z]), <<>>, FALSE).st, pr)
    [] n.t = "cond"  ->
         LET Pair(dv, c) == IF c.ok THEN COk(VA(<<dv, c.val>>)) ELSE CFail
             dc == Complete(n.d, st.ds, pr)
             b  == IF dc.ok THEN BranchIdx(n, dc.val) ELSE 0
             Dflt == IF n.hasdef
                     THEN Pair(VU, Complete(n.def, IF st.hasbs THEN st.bs ELSE Init(n.def), pr)) ELSE CFail
         IN IF st.sel = 0 THEN Pair(VU, Complete(n.def, st.bs, FALSE))
            ELSE IF st.sel > 0 /\ st.spec
            THEN IF pr THEN COk(VU)
                 ELSE IF ~dc.ok \/ dc.val # VS(n.bks[st.sel]) THEN CFail
                 ELSE Pair(dc.val, Complete(n.bcs[st.sel], st.bs, FALSE))
            ELSE IF st.sel > 0 THEN Pair(VS(n.bks[st.sel]), Complete(n.bcs[st.sel], st.bs, FALSE))
            ELSE IF pr THEN COk(VU)
            ELSE IF b # 0
            THEN LET r == Parse(n.bcs[b], Init(n.bcs[b]), <<>>, FALSE)
                 IN Pair(dc.val, Complete(n.bcs[b], IF r.ok THEN r.st ELSE Init(n.bcs[b]), pr))
            ELSE Dflt
    [] n.t = "optional" -> IF st.k = "some" THEN Complete(n.c, st.o, pr) ELSE COk(VU)
    [] n.t = "dflt"     -> IF st.k = "some" THEN Complete(n.c, st.o, pr) ELSE COk(n.dv)
    [] n.t = "multi" ->
         LET r == [i \in 1..Len(st.s) |-> Complete(n.c, st.s[i], pr)]
         IN IF (\A i \in 1..Len(r) : r[i].ok) /\ Len(r) >= n.min /\ (n.max < 0 \/ Len(r) <= n.max)
            THEN COk(VA([i \in 1..Len(r) |-> r[i].val])) ELSE CFail
    [] n.t = "map"   -> LET r == Complete(n.c, st, pr) IN IF r.ok THEN COk(VA(<<VS("map"), r.val>>)) ELSE CFail
    [] OTHER         -> Complete(n.c, st, pr)                   \* nonempty, group

----------------------------------------------------------------------------
(* The whole run as one operator (used where no step-wise view is needed). *)
RECURSIVE RunFrom(_, _, _, _)
RunFrom(n, st, buf, term) ==
  LET r == Parse(n, st, buf, term)
  IN IF ~r.ok THEN CFail
     ELSE IF r.buf = <<>> THEN Complete(n, r.st, FALSE)
     ELSE IF r.buf = buf THEN CFail
     ELSE RunFrom(n, r.st, r.buf, r.term)
Run(n, argv) == RunFrom(n, Init(n), argv, FALSE)
=============================================================================
