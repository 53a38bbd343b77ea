------------------------------- MODULE Runner -------------------------------
(***************************************************************************)
(* The runner around a parser: the user's own grammar is tried first; only *)
(* when it does not accept the command line are the tokens it left looked  *)
(* through for help, version and completion requests.                      *)
(* Config record c: ho hc vo vc co cc (sequences of names, empty = off),   *)
(* hg (grammar used to check the path of a help request), hh hv hp (the    *)
(* help, version and completion commands), shells.                         *)
(***************************************************************************)
EXTENDS Optique

HIn(x, s) == \E i \in 1..Len(s) : s[i] = x

(* command names matched so far, outermost first; more than one at a level *)
(* makes the path depend on internal order ("?")                           *)
RECURSIVE PathIn(_, _)
ConcatPaths(S, ns, sts) == FlattenSeq([i \in 1..Len(sts) |-> PathIn(ns[i], sts[i])])
PathIn(n, st0) ==
  LET st == IF st0.k \in {"some"} /\ n.t \notin {"optional", "dflt"} THEN st0 ELSE st0
  IN CASE n.t = "cmd" -> IF st.k \in {"cm"} THEN <<n.nm>>
                         ELSE IF st.k \in {"cp"} THEN <<n.nm>> \o PathIn(n.c, st.c) ELSE <<>>
       [] n.t \in {"obj", "tup", "seq", "merge", "concat"} ->
            FlattenSeq([i \in 1..Len(n.cs) |-> PathIn(n.cs[i], st.s[i])])
       [] n.t \in {"or", "lm"} -> IF st.k = "ex" THEN PathIn(n.cs[st.i], st.x) ELSE <<>>
       [] n.t = "cond" -> IF st.sel > 0 THEN PathIn(n.d, st.ds) \o PathIn(n.bcs[st.sel], st.bs)
                          ELSE IF st.sel = 0 THEN PathIn(n.def, st.bs) ELSE PathIn(n.d, st.ds)
       [] n.t \in {"optional", "dflt"} -> IF st.k = "some" THEN PathIn(n.c, st.o) ELSE <<>>
       [] n.t = "multi" -> FlattenSeq([i \in 1..Len(st.s) |-> PathIn(n.c, st.s[i])])
       [] n.t \in {"map", "group", "nonempty"} -> PathIn(n.c, st)
       [] OTHER -> <<>>

(* the parse attempt of the runner *)
RECURSIVE Attempt(_, _, _, _, _)
Attempt(n, st, buf, term, total) ==
  LET r == Parse(n, st, buf, term)
      Stop(rem, used, t, s) == [ok |-> FALSE, val |-> VU, rem |-> rem, used |-> used, term |-> t, path |-> PathIn(n, s)]
  IN IF ~r.ok THEN Stop(DropN(buf, r.n), total - Len(buf) + r.n, term, st)
     ELSE IF r.buf # <<>> /\ r.buf = buf
     THEN Stop(DropN(buf, Len(r.cons)), total - Len(buf) + Len(r.cons), r.term, r.st)
     ELSE IF r.buf # <<>> THEN Attempt(n, r.st, r.buf, r.term, total)
     ELSE LET c == Complete(n, r.st, FALSE)
          IN IF c.ok THEN [ok |-> TRUE, val |-> c.val, rem |-> <<>>, used |-> total, term |-> r.term, path |-> <<>>]
             ELSE Stop(<<>>, total, r.term, r.st)

(* scan of the tokens that may still be options *)
RECURSIVE Scan(_, _, _, _, _)
Scan(c, scan, full, i, hv) ==
  IF i > Len(scan) THEN [hv |-> hv, comp |-> [at |-> -1, shell |-> "", args |-> <<>>]]
  ELSE LET a == scan[i]
           hv2 == IF HIn(a, c.ho) THEN [at |-> i - 1, k |-> "help"]
                  ELSE IF HIn(a, c.vo) THEN [at |-> i - 1, k |-> "version"] ELSE hv
           J == {j \in 1..Len(c.co) : StartsWith(a, c.co[j] \o "=")}
       IN IF J # {}
          THEN LET j == CHOOSE x \in J : \A y \in J : x <= y
               IN [hv |-> hv2, comp |-> [at |-> i - 1, shell |-> Drop(a, Len(c.co[j]) + 1), args |-> DropN(full, i)]]
          ELSE IF HIn(a, c.co)
          THEN LET s == IF i < Len(scan) THEN scan[i + 1] ELSE ""
               IN [hv |-> hv2, comp |-> [at |-> i - 1, shell |-> s, args |-> IF s = "" THEN <<>> ELSE DropN(full, i + 1)]]
          ELSE Scan(c, scan, full, i + 1, hv2)

DashAt(q) == LET D == {i \in 1..Len(q) : q[i] = "--"} IN IF D = {} THEN Len(q) + 1 ELSE CHOOSE i \in D : \A j \in D : i <= j
NoDash(q) == SelectSeq(q, LAMBDA x : ~StartsWith(x, "-"))

(* -> [k |-> "error" | "version" | "help" | "completion", ...] *)
R0(k) == [k |-> k, cmds |-> <<>>, user |-> FALSE, shell |-> "", args |-> <<>>]
Classify(c, f) ==
  IF f.rem = <<>> THEN R0("error")
  ELSE LET first == f.rem[1]
           sec == IF Len(f.rem) > 1 THEN f.rem[2] ELSE ""
           has2 == Len(f.rem) > 1
           fresh == f.used = 0
           z == Scan(c, IF f.term THEN <<>> ELSE SubSeq(f.rem, 1, DashAt(f.rem) - 1), f.rem, 1, [at |-> -1, k |-> "none"])
           Opt == IF z.hv.k = "help"
                  THEN [R0("help") EXCEPT !.cmds = f.path \o NoDash(SubSeq(f.rem, 1, z.hv.at)), !.user = f.path # <<>>]
                  ELSE IF z.hv.k = "version" THEN R0("version")
                  ELSE IF z.comp.at >= 0 THEN [R0("completion") EXCEPT !.shell = z.comp.shell, !.args = f.path \o z.comp.args]
                  ELSE R0("error")
       IN IF fresh /\ HIn(first, c.cc)
          THEN IF has2 /\ HIn(sec, c.ho) THEN [R0("help") EXCEPT !.cmds = <<first>>]
               ELSE [R0("completion") EXCEPT !.shell = sec, !.args = DropN(f.rem, 2)]
          ELSE IF fresh /\ HIn(first, c.vc)
          THEN IF has2 /\ HIn(sec, c.ho) THEN [R0("help") EXCEPT !.cmds = <<first>>]
               ELSE IF ~has2 \/ z.comp.at = 1 \/ (z.hv.at = 1 /\ z.hv.k = "version") THEN R0("version")
               ELSE R0("error")
          ELSE IF fresh /\ HIn(first, c.hc) /\ z.hv.k = "none"
          THEN [R0("help") EXCEPT !.cmds = DropN(f.rem, 1)]
          ELSE Opt

(* is the command path of a help request one the grammar knows? *)
RECURSIVE Walk(_, _, _, _)
Walk(n, st, buf, term) ==
  LET r == Parse(n, st, buf, term)
  IN r.ok /\ r.cons # <<>> /\ (r.buf = <<>> \/ Walk(n, r.st, r.buf, r.term))
KnownPath(c, q) ==
  LET n == IF q.user THEN c.hg
           ELSE IF HIn(q.cmds[1], c.cc) THEN c.hp
           ELSE IF HIn(q.cmds[1], c.hc) THEN c.hh
           ELSE IF HIn(q.cmds[1], c.vc) THEN c.hv
           ELSE c.hg
  IN Walk(n, Init(n), q.cmds, FALSE)

(* the observable outcome: kind, value, shell and words of a completion *)
Act(c, n, argv) ==
  LET f == Attempt(n, Init(n), argv, FALSE, Len(argv))
      Out(k, v) == [k |-> k, v |-> v, shell |-> "", n |-> 0]
  IN IF f.ok THEN Out("value", f.val)
     ELSE LET q == Classify(c, f)
          IN CASE q.k = "error" -> Out("error", VU)
               [] q.k = "version" -> Out("version", VU)
               [] q.k = "help" -> IF q.cmds = <<>> \/ KnownPath(c, q) THEN Out("help", VU) ELSE Out("error", VU)
               [] q.k = "completion" -> IF ~HIn(q.shell, c.shells) THEN Out("error", VU)
                                        ELSE [Out(IF q.args = <<>> THEN "script" ELSE "suggest", VU)
                                              EXCEPT !.shell = q.shell, !.n = Len(q.args)]

(* --- declarative predicates on the outcome --- *)
Metas(c) == ToSet(c.ho) \cup ToSet(c.hc) \cup ToSet(c.vo) \cup ToSet(c.vc) \cup ToSet(c.co) \cup ToSet(c.cc)
IsMeta(c, t) == t \in Metas(c) \/ \E j \in 1..Len(c.co) : StartsWith(t, c.co[j] \o "=")
(* the user's grammar comes first *)
POwn(c, n, argv, out) == LET r == Run(n, argv) IN r.ok => (out.k = "value" /\ ValEq(out.v, r.val))
(* nothing is requested by a command line without request tokens, nor when *)
(* it begins with the terminator (unless the step that consumed the         *)
(* terminator then failed: recorded finding)                                *)
PNone(c, n, argv, out) ==
  ((\A i \in 1..Len(argv) : ~IsMeta(c, argv[i]))
   \/ (argv # <<>> /\ argv[1] = "--" /\ LET f == Attempt(n, Init(n), argv, FALSE, Len(argv)) IN f.used = 0 \/ f.term \/ f.ok))
     => out.k \in {"value", "error"}
(* a request needs its token *)
PToken(c, argv, out) ==
  /\ out.k = "help" => \E i \in 1..Len(argv) : argv[i] \in ToSet(c.ho) \cup ToSet(c.hc)
  /\ out.k = "version" => \E i \in 1..Len(argv) : argv[i] \in ToSet(c.vo) \cup ToSet(c.vc)
  /\ out.k \in {"script", "suggest"} => \E i \in 1..Len(argv) : argv[i] \in ToSet(c.co) \cup ToSet(c.cc) \/ \E j \in 1..Len(c.co) : StartsWith(argv[i], c.co[j] \o "=")
(* when the grammar can make nothing of the command line, the last of help  *)
(* and version options before any terminator or completion decides          *)
PLast(c, n, argv, out) ==
  LET f == Attempt(n, Init(n), argv, FALSE, Len(argv))
      L == {i \in 1..Len(f.rem) : f.rem[i] \in ToSet(c.ho) \cup ToSet(c.vo)}
      B == {i \in 1..Len(f.rem) : f.rem[i] = "--" \/ f.rem[i] \in ToSet(c.co) \/ \E j \in 1..Len(c.co) : StartsWith(f.rem[i], c.co[j] \o "=")}
  IN (~f.ok /\ f.rem # <<>> /\ ~f.term /\ L # {} /\ B = {} /\ f.rem[1] \notin ToSet(c.cc) \cup ToSet(c.vc) \cup ToSet(c.hc))
       => LET m == CHOOSE i \in L : \A j \in L : j <= i
          IN IF f.rem[m] \in ToSet(c.ho) THEN out.k \in {"help", "error"} ELSE out.k = "version"
=============================================================================
