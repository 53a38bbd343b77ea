------------------------------ MODULE Suggest ------------------------------
(***************************************************************************)
(* Shell completion over the parser machine of Optique: the tokens before  *)
(* the one being completed are parsed, and the state reached determines    *)
(* which literal words may stand next.                                     *)
(*                                                                         *)
(* Sug is the completion function; Viable is the independent criterion     *)
(* "the parser takes this word here", evaluated on the parse relation.     *)
(* TLC checks Sug against Viable on every case (SOUND, COMPLETE) and the   *)
(* recorded suggestions of the implementation against Sug (MISMATCH).      *)
(***************************************************************************)
EXTENDS Optique, IOUtils, Json

Hid(n) == HidOf(n)
OptionPrefix(p) == p # "" /\ Ch(p, 1) \in {"-", "/", "+"}
With(S, p) == {s \in S : StartsWith(s, p)}
Choices(vp) == IF vp.k = "choice" THEN ToSet(vp.cs) ELSE {}
LastTok(buf) == buf[Len(buf)]

(* names of the options that take a value, in the part of the grammar that *)
(* is being parsed                                                         *)
RECURSIVE ValueNames(_)
ValueNames(n) ==
  CASE n.t = "opt" -> ToSet(n.ns)
    [] n.t = "cond" -> ValueNames(n.d) \cup UNION {ValueNames(n.bcs[i]) : i \in 1..Len(n.bcs)}
                       \cup (IF n.hasdef THEN ValueNames(n.def) ELSE {})
    [] "cs" \in DOMAIN n -> UNION {ValueNames(n.cs[i]) : i \in 1..Len(n.cs)}
    [] "c" \in DOMAIN n -> ValueNames(n.c)
    [] OTHER -> {}

(* x: [buf, term, vn, top]; top: the option is the whole grammar, which    *)
(* completes its values even without the name                              *)
Pending(x) == x.buf # <<>> /\ LastTok(x.buf) \in x.vn

Names(ns, x, p) ==
  IF ~OptionPrefix(p) \/ x.term \/ Pending(x) \/ FindCh(p, "=", 1) > 0 THEN {}
  ELSE {s \in With(ns, p) : p # "-" \/ Len(s) = 2}

SOption(n, st, x, p) ==
  LET e == FindCh(p, "=", 1)
  IN IF Hid(n) THEN {}
     ELSE IF e > 0 /\ ~Pending(x)
     THEN LET nm == SubSeq(p, 1, e - 1) IN
          IF nm \in ToSet(n.ns) /\ ~x.term
          THEN {nm \o "=" \o v : v \in With(Choices(n.vp), Drop(p, e))} ELSE {}
     ELSE Names(ToSet(n.ns), x, p)
          \cup (IF x.buf # <<>> /\ LastTok(x.buf) \in ToSet(n.ns) /\ ~x.term
                THEN With(Choices(n.vp), p)
                ELSE IF x.top /\ ~x.term /\ st = NIL /\ x.buf = <<>> /\ ~OptionPrefix(p)
                THEN With(Choices(n.vp), p) ELSE {})

(* the printed form of a value *)
RECURSIVE StrOf(_)
StrOf(v) ==
  CASE v.k \in {"s", "i", "b"} -> v.v
    [] v.k = "a" -> LET F[i \in 0..Len(v.e)] ==
                          IF i = 0 THEN "" ELSE IF i = 1 THEN StrOf(v.e[1]) ELSE F[i - 1] \o "," \o StrOf(v.e[i])
                    IN F[Len(v.e)]
    [] OTHER -> ""

(* tuple(): the tokens its members can take before the pending one *)
RECURSIVE TupAdv(_, _, _, _, _)
TupAdv(n, left, sts, buf, term) ==
  IF left = <<>> \/ buf = <<>> THEN [sts |-> sts, buf |-> buf, term |-> term]
  ELSE LET f == FirstConsuming(n, left, 1, sts, buf, term, 0)
           Rest(i) == SelectSeq(left, LAMBDA y : y # i)
       IN IF f.hit # 0 THEN TupAdv(n, Rest(f.hit), [sts EXCEPT ![f.hit] = f.r.st], f.r.buf, f.r.term)
          ELSE LET q == FirstQuiet(n, left, 1, sts, buf, term)
               IN IF q.hit = 0 THEN [sts |-> sts, buf |-> buf, term |-> term]
                  ELSE TupAdv(n, Rest(q.hit), IF q.r.ok THEN [sts EXCEPT ![q.hit] = q.r.st] ELSE sts, buf, term)

RECURSIVE SeqAdv(_, _, _, _, _)
SeqAdv(n, at, sts, buf, term) ==
  IF at > Len(n.cs) \/ buf = <<>> THEN [at |-> at, sts |-> sts, buf |-> buf, term |-> term]
  ELSE IF SeqAdvance(n, at, sts, Head(buf), term)
  THEN IF Head(buf) = "--" /\ ~term THEN SeqAdv(n, at + 1, sts, Tail(buf), TRUE)
       ELSE SeqAdv(n, at + 1, sts, buf, term)
  ELSE LET r == Parse(n.cs[at], sts[at], buf, term)
       IN IF ~r.ok
          THEN IF r.n > 0 \/ ~CanSkip(n.cs[at], sts[at]) THEN [at |-> at, sts |-> sts, buf |-> buf, term |-> term]
               ELSE SeqAdv(n, at + 1, sts, buf, term)
          ELSE SeqAdv(n, IF r.cons # <<>> THEN at ELSE at + 1, [sts EXCEPT ![at] = r.st], r.buf, r.term)

RECURSIVE Sug(_, _, _, _)
RECURSIVE SeqSug(_, _, _, _, _)
SeqSug(n, i, sts, x, p) ==
  IF i > Len(n.cs) THEN {}
  ELSE Sug(n.cs[i], sts[i], x, p)
       \cup (IF CanSkip(n.cs[i], sts[i]) THEN SeqSug(n, i + 1, sts, x, p) ELSE {})

Sug(n, st, x0, p) ==
  LET x == IF n.t \in {"optional", "dflt", "nonempty", "map", "group", "opt"} THEN x0 ELSE [x0 EXCEPT !.top = FALSE]
  IN CASE n.t = "opt"   -> SOption(n, st, x, p)
    [] n.t \in {"bopt", "flag"} -> IF Hid(n) THEN {} ELSE Names(ToSet(n.ns), x, p)
    [] n.t = "nflag" -> IF Hid(n) THEN {} ELSE Names(ToSet(n.pos) \cup ToSet(n.neg), x, p)
    [] n.t = "arg"   -> IF Hid(n) \/ st # NIL \/ Pending(x) THEN {} ELSE With(Choices(n.vp), p)
    [] n.t \in {"pass", "const", "fail"} -> {}
    [] n.t = "cmd"   ->
         IF Hid(n) THEN {}
         ELSE IF st.k = "nil" THEN IF Pending(x) THEN {} ELSE With({n.nm} \cup ToSet(n.al), p)
         ELSE IF Pending(x) /\ LastTok(x.buf) \notin ValueNames(n.c) THEN {}
         ELSE Sug(n.c, IF st.k = "cm" THEN Init(n.c) ELSE st.c, [x EXCEPT !.vn = ValueNames(n.c), !.top = FALSE], p)
    [] n.t \in {"obj", "merge", "concat"} -> UNION {Sug(n.cs[i], st.s[i], x, p) : i \in 1..Len(n.cs)}
    [] n.t = "tup"   ->
         LET a == TupAdv(n, n.ord, st.s, x.buf, x.term)
         IN UNION {Sug(n.cs[i], a.sts[i], [x EXCEPT !.buf = a.buf, !.term = a.term], p) : i \in 1..Len(n.cs)}
    [] n.t = "seq"   ->
         LET a == SeqAdv(n, st.at, st.s, x.buf, x.term)
         IN SeqSug(n, a.at, a.sts, [x EXCEPT !.buf = a.buf, !.term = a.term], p)
    [] n.t \in {"or", "lm"} ->
         IF st.k = "ex" /\ st.xc # <<>> THEN Sug(n.cs[st.i], st.x, x, p)
         ELSE UNION {Sug(n.cs[i], Init(n.cs[i]), x, p) : i \in 1..Len(n.cs)}
    [] n.t = "cond"  ->
         IF st.sel = 0 THEN Sug(n.def, st.bs, x, p)
         ELSE IF st.sel > 0 THEN Sug(n.bcs[st.sel], st.bs, x, p)
         ELSE LET c == Complete(n.d, st.ds, FALSE)      \* an asynchronous discriminator is not resolved
                  b == IF ~n.d.asy /\ c.ok THEN BranchIdx(n, c.val) ELSE 0
                  O(q) == IF st.hasbs THEN st.bs ELSE Init(q)
              IN Sug(n.d, st.ds, x, p)
                 \cup (IF b # 0 THEN Sug(n.bcs[b], O(n.bcs[b]), x, p)
                       ELSE IF n.hasdef THEN Sug(n.def, O(n.def), x, p) ELSE {})
    [] n.t \in {"optional", "dflt"} -> Sug(n.c, IF st.k = "some" THEN st.o ELSE Init(n.c), x, p)
    [] n.t = "multi" ->
         LET len == Len(st.s)
             cur == IF len = 0 THEN NIL ELSE st.s[len]
             ext == len > 0 /\ Extendable(n, cur)
             sel == {LET r == Complete(n.c, st.s[i], FALSE) IN IF r.ok THEN StrOf(r.val) ELSE "" : i \in 1..len}
         IN IF ~ext /\ ~(n.max < 0 \/ len < n.max) THEN {}
            ELSE Sug(n.c, IF ext THEN cur ELSE Init(n.c), x, p) \ sel
    [] OTHER -> Sug(n.c, st, x, p)                          \* nonempty, map, group

(* the state reached by the tokens before the completed one *)
RECURSIVE Reach(_, _, _, _)
Reach(n, st, buf, term) ==
  IF buf = <<>> THEN [k |-> "done", st |-> st, buf |-> buf, term |-> term]
  ELSE LET r == Parse(n, st, buf, term)
       IN IF ~r.ok THEN [k |-> "stop", st |-> st, buf |-> buf, term |-> term]
          ELSE IF r.buf = buf THEN [k |-> "stuck", st |-> st, buf |-> buf, term |-> term]
          ELSE Reach(n, r.st, r.buf, r.term)

Suggestions(n, q, p) ==
  IF q.k = "stuck" THEN {} ELSE Sug(n, q.st, [buf |-> q.buf, term |-> q.term, vn |-> ValueNames(n), top |-> TRUE], p)

(* no value in a state is invalid *)
RECURSIVE Valid(_)
Valid(st) ==
  CASE st.k \in {"v", "nv"} -> st.ok
    [] st.k = "some" -> Valid(st.o)
    [] st.k \in {"list", "tup", "rec", "seq"} -> \A i \in 1..Len(st.s) : Valid(st.s[i])
    [] st.k = "ex" -> Valid(st.x)
    [] st.k = "cp" -> Valid(st.c)
    [] st.k = "cond" -> Valid(st.ds) /\ Valid(st.bs)
    [] OTHER -> TRUE

(* the whole line is consumed and every value on it is valid *)
Consumed(n, line) == LET q == Reach(n, Init(n), line, FALSE) IN q.k = "done" /\ Valid(q.st)
Tails == {<<>>, <<"0">>, <<"1">>, <<"3">>, <<"v">>}
RECURSIVE ChoiceWords(_)
ChoiceWords(n) ==
  CASE "vp" \in DOMAIN n -> Choices(n.vp)
    [] n.t = "cond" -> ToSet(n.bks) \cup ChoiceWords(n.d) \cup UNION {ChoiceWords(n.bcs[i]) : i \in 1..Len(n.bcs)}
                       \cup (IF n.hasdef THEN ChoiceWords(n.def) ELSE {})
    [] "cs" \in DOMAIN n -> UNION {ChoiceWords(n.cs[i]) : i \in 1..Len(n.cs)}
    [] "c" \in DOMAIN n -> ChoiceWords(n.c)
    [] OTHER -> {}
(* the alternatives chosen in state a are still chosen in state b *)
RECURSIVE Kept(_, _)
Kept(a, b) ==
  CASE a.k = "ex" -> a.xc = <<>> \/ (b.k = "ex" /\ a.i = b.i /\ Kept(a.x, b.x))
    [] a.k = "some" -> b.k = "some" /\ Kept(a.o, b.o)
    [] a.k \in {"list", "tup", "rec", "seq"} -> \A i \in 1..Len(a.s) : Kept(a.s[i], b.s[i])
    [] a.k = "cp" -> b.k = "cp" /\ Kept(a.c, b.c)
    [] a.k = "cond" -> a.sel < 0 \/ (a.sel = b.sel /\ Kept(a.bs, b.bs))
    [] OTHER -> TRUE
ViableKept(n, st, args, s) ==
  \E w \in Tails \cup {<<v>> : v \in ChoiceWords(n)} :
     LET q == Reach(n, Init(n), args \o <<s>> \o w, FALSE)
     IN q.k = "done" /\ Valid(q.st) /\ Kept(st, q.st)
Viable(n, args, s) == \E w \in Tails \cup {<<v>> : v \in ChoiceWords(n)} : Consumed(n, args \o <<s>> \o w)

(* words that stand for a visible item of the grammar *)
RECURSIVE Vocab(_)
Vocab(n) ==
  IF Hid(n) THEN {}
  ELSE CASE n.t = "opt" -> ToSet(n.ns) \cup Choices(n.vp)
         [] n.t \in {"bopt", "flag"} -> ToSet(n.ns)
         [] n.t = "nflag" -> ToSet(n.pos) \cup ToSet(n.neg)
         [] n.t = "arg" -> Choices(n.vp)
         [] n.t = "cmd" -> {n.nm} \cup ToSet(n.al) \cup Vocab(n.c)
         [] n.t = "cond" -> Vocab(n.d) \cup UNION {Vocab(n.bcs[i]) : i \in 1..Len(n.bcs)}
                            \cup (IF n.hasdef THEN Vocab(n.def) ELSE {})
         [] "cs" \in DOMAIN n -> UNION {Vocab(n.cs[i]) : i \in 1..Len(n.cs)}
         [] "c" \in DOMAIN n -> Vocab(n.c)
         [] OTHER -> {}
RECURSIVE HiddenWords(_)
HiddenWords(n) ==
  CASE n.t \in {"opt", "arg"} -> IF Hid(n) THEN Choices(n.vp) ELSE {}
    [] n.t = "cond" -> HiddenWords(n.d) \cup UNION {HiddenWords(n.bcs[i]) : i \in 1..Len(n.bcs)}
                       \cup (IF n.hasdef THEN HiddenWords(n.def) ELSE {})
    [] "cs" \in DOMAIN n -> UNION {HiddenWords(n.cs[i]) : i \in 1..Len(n.cs)}
    [] "c" \in DOMAIN n -> IF Hid(n) THEN Vocab([n EXCEPT !.hid = ""]) ELSE HiddenWords(n.c)
    [] OTHER -> {}
(* an item that takes any word makes every word viable *)
RECURSIVE Greedy(_)
Greedy(n) ==
  \/ n.t \in {"arg", "opt"} /\ n.vp.k = "str"
  \/ n.t = "pass"
  \/ n.t = "cond" /\ (Greedy(n.d) \/ (n.hasdef /\ Greedy(n.def)) \/ \E i \in 1..Len(n.bcs) : Greedy(n.bcs[i]))
  \/ "cs" \in DOMAIN n /\ \E i \in 1..Len(n.cs) : Greedy(n.cs[i])
  \/ "c" \in DOMAIN n /\ Greedy(n.c)

(* option names are offered once the word begins like an option, and only  *)
(* short ones for a lone dash                                              *)
RECURSIVE OptionNames(_)
OptionNames(n) ==
  CASE n.t \in {"opt", "bopt", "flag"} -> ToSet(n.ns)
    [] n.t = "nflag" -> ToSet(n.pos) \cup ToSet(n.neg)
    [] n.t = "cond" -> OptionNames(n.d) \cup UNION {OptionNames(n.bcs[i]) : i \in 1..Len(n.bcs)}
                       \cup (IF n.hasdef THEN OptionNames(n.def) ELSE {})
    [] "cs" \in DOMAIN n -> UNION {OptionNames(n.cs[i]) : i \in 1..Len(n.cs)}
    [] "c" \in DOMAIN n -> OptionNames(n.c)
    [] OTHER -> {}
Offered(n, s, p) == s \notin OptionNames(n) \/ (OptionPrefix(p) /\ (p # "-" \/ Len(s) = 2))

(* an option that may be given once is still offered after it was given    *)
RECURSIVE Siblings(_, _)         \* all names of the option called s
Siblings(n, s) ==
  CASE n.t \in {"opt", "bopt", "flag"} -> IF s \in ToSet(n.ns) THEN ToSet(n.ns) ELSE {}
    [] n.t = "nflag" -> LET A == ToSet(n.pos) \cup ToSet(n.neg) IN IF s \in A THEN A ELSE {}
    [] n.t = "cond" -> Siblings(n.d, s) \cup UNION {Siblings(n.bcs[i], s) : i \in 1..Len(n.bcs)}
                       \cup (IF n.hasdef THEN Siblings(n.def, s) ELSE {})
    [] "cs" \in DOMAIN n -> UNION {Siblings(n.cs[i], s) : i \in 1..Len(n.cs)}
    [] "c" \in DOMAIN n -> Siblings(n.c, s)
    [] OTHER -> {}
Repeats(n, args, s) ==
  LET e == FindCh(s, "=", 1)
      pend == args # <<>> /\ LastTok(args) \in ValueNames(n)
      A == Siblings(n, IF pend THEN LastTok(args) ELSE IF e > 0 THEN SubSeq(s, 1, e - 1) ELSE s)
  IN \E i \in 1..(IF pend THEN Len(args) - 1 ELSE Len(args)) : \E nm \in A :
        \/ args[i] = nm
        \/ StartsWith(args[i], JoinPrefix(nm))
        \/ IsShort(nm) /\ StartsWith(args[i], "-") /\ Contains(args[i], Ch(nm, 2))

(* When several positional items are missing, the candidates of all of     *)
(* them are offered, not only those of the first.                          *)
RECURSIVE Positionals(_)
Positionals(n) ==
  CASE n.t = "arg" -> <<n>>
    [] n.t = "cond" -> Positionals(n.d) \o FlattenSeq([i \in 1..Len(n.bcs) |-> Positionals(n.bcs[i])])
                       \o (IF n.hasdef THEN Positionals(n.def) ELSE <<>>)
    [] "cs" \in DOMAIN n -> FlattenSeq([i \in 1..Len(n.cs) |-> Positionals(n.cs[i])])
    [] "c" \in DOMAIN n -> Positionals(n.c)
    [] OTHER -> <<>>
RECURSIVE CmdWords(_)
CmdWords(n) ==
  CASE n.t = "cmd" -> {n.nm} \cup ToSet(n.al) \cup CmdWords(n.c)
    [] n.t = "cond" -> CmdWords(n.d) \cup UNION {CmdWords(n.bcs[i]) : i \in 1..Len(n.bcs)}
                       \cup (IF n.hasdef THEN CmdWords(n.def) ELSE {})
    [] "cs" \in DOMAIN n -> UNION {CmdWords(n.cs[i]) : i \in 1..Len(n.cs)}
    [] "c" \in DOMAIN n -> CmdWords(n.c)
    [] OTHER -> {}
LaterPositional(n, s) ==
  LET a == Positionals(n)
  IN \/ Len(a) > 1 /\ \E i \in 1..Len(a) : s \in Choices(a[i].vp)
     \/ Len(a) > 0 /\ (s \in CmdWords(n) \/ StartsWith(s, "+") \/ StartsWith(s, "/"))
Tail1(s) == LET e == FindCh(s, "=", 1) IN IF e > 0 THEN Drop(s, e) ELSE s
(* The joined form is offered for short and slash options too, and a       *)
(* positional parameter may take the joined form of an option.             *)
OddJoin(n, s) ==
  LET e == FindCh(s, "=", 1)
  IN e > 0 /\ (~JoinedCapable(SubSeq(s, 1, e - 1)) \/ StartsWith(s, "/") \/ CmdWords(n) # {} \/ Positionals(n) # <<>>)
(* the option is the whole grammar and is completed without its name *)
RECURSIVE Bare1(_)
Bare1(n) == n.t = "opt" \/ (n.t \in {"optional", "dflt", "nonempty", "map", "group"} /\ Bare1(n.c))
(* repeated structured items: where an item ends is decided with the word  *)
RECURSIVE MultiStruct(_)
MultiStruct(n) ==
  \/ n.t = "multi" /\ Bare(n.c).t \notin {"opt", "arg", "flag", "bopt", "nflag"}
  \/ n.t = "cond" /\ (MultiStruct(n.d) \/ (n.hasdef /\ MultiStruct(n.def)) \/ \E i \in 1..Len(n.bcs) : MultiStruct(n.bcs[i]))
  \/ "cs" \in DOMAIN n /\ \E i \in 1..Len(n.cs) : MultiStruct(n.cs[i])
  \/ "c" \in DOMAIN n /\ MultiStruct(n.c)
(* values of a discriminator need not have a branch *)
RECURSIVE DiscWords(_)
DiscWords(n) ==
  CASE n.t = "cond" -> ChoiceWords(n.d) \cup UNION {DiscWords(n.bcs[i]) : i \in 1..Len(n.bcs)}
                       \cup (IF n.hasdef THEN DiscWords(n.def) ELSE {})
    [] "cs" \in DOMAIN n -> UNION {DiscWords(n.cs[i]) : i \in 1..Len(n.cs)}
    [] "c" \in DOMAIN n -> DiscWords(n.c)
    [] OTHER -> {}
(* a seq() inside another construct holds the input until it is finished  *)
RECURSIVE HasSeq(_)
HasSeq(n) == \/ n.t = "seq"
             \/ n.t = "cond" /\ (HasSeq(n.d) \/ (n.hasdef /\ HasSeq(n.def)) \/ \E i \in 1..Len(n.bcs) : HasSeq(n.bcs[i]))
             \/ "cs" \in DOMAIN n /\ \E i \in 1..Len(n.cs) : HasSeq(n.cs[i])
             \/ "c" \in DOMAIN n /\ HasSeq(n.c)
(* passThrough() takes whatever a neighbour has not taken                  *)
RECURSIVE HasPass(_)
HasPass(n) == \/ n.t = "pass"
              \/ n.t = "cond" /\ (HasPass(n.d) \/ (n.hasdef /\ HasPass(n.def)) \/ \E i \in 1..Len(n.bcs) : HasPass(n.bcs[i]))
              \/ "cs" \in DOMAIN n /\ \E i \in 1..Len(n.cs) : HasPass(n.cs[i])
              \/ "c" \in DOMAIN n /\ HasPass(n.c)
RECURSIVE SeqNested(_)
SeqNested(n) == IF n.t \in {"cmd", "seq", "map", "group", "nonempty"}
                THEN IF n.t = "seq" THEN \E i \in 1..Len(n.cs) : HasSeq(n.cs[i]) ELSE SeqNested(n.c)
                ELSE HasSeq(n)
(* repeated items do not offer a value twice *)
Chosen(args, s) == \E i \in 1..Len(args) : args[i] = s \/ EndsWith(args[i], "=" \o s) \/ EndsWith(args[i], ":" \o s)

----------------------------------------------------------------------------
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES idx, md, ph
vars == <<idx, md, ph>>
SInit == idx \in 1..Len(Cases) /\ md \in {"sync", "async"} /\ ph = "load"
Say(tag, ex) == PrintT("@@" \o ToJson([tag |-> tag, idx |-> idx, m |-> md] @@ ex))
(* The line before the word is well-formed, or ends in an option waiting   *)
(* for its value; completion after invalid input is best effort.           *)
Usable(n, q, args) ==
  \/ q.k = "done" /\ Valid(q.st) /\ (args = <<>> \/ LastTok(args) \notin ValueNames(n))
  \/ q.k = "stop" /\ LastTok(args) \in ValueNames(n) /\ Consumed(n, SubSeq(args, 1, Len(args) - 1))
Judge(c) ==
  LET n == AnnRoot(c.g, md = "async")
  IN IF Rejected(n) THEN TRUE
     ELSE LET q == Reach(n, Init(n), c.args, FALSE)
              S == Suggestions(n, q, c.p)
          IN IF ~Usable(n, q, c.args) THEN TRUE
             ELSE /\ IF S = ToSet(c[md]) \/ MultiStruct(n) \/ HasPass(n) THEN TRUE ELSE Say("MISMATCH", [want |-> S, got |-> c[md]])
                  /\ \A s \in S :
                       IF \/ md = "async" \/ Bare1(n) \/ Repeats(n, c.args, s) \/ Tail1(s) \in DiscWords(n) \/ OddJoin(n, s) \/ SeqNested(n) \/ HasPass(n)
                          \/ LaterPositional(n, s) \/ Viable(n, c.args, s) THEN TRUE
                       ELSE Say("SOUND", [s |-> s])
                  /\ IF md = "async" \/ Greedy(n) \/ MultiStruct(n) \/ HasSeq(n) THEN TRUE
                     ELSE \A s \in (With(Vocab(n), c.p) \ S) \ HiddenWords(n) :
                            IF Offered(n, s, c.p) /\ ~Chosen(c.args, s) /\ ViableKept(n, q.st, c.args, s)
                            THEN Say("COMPLETE", [s |-> s]) ELSE TRUE
SNext == ph = "load" /\ ph' = "done" /\ Judge(Cases[idx]) /\ UNCHANGED <<idx, md>>
SSpec == SInit /\ [][SNext]_vars
=============================================================================
