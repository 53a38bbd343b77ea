-------------------------------- MODULE Git --------------------------------
(* A repository changing under long-lived git value parsers: what each of   *)
(* them accepts, returns, reports and suggests after every operation.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS Depth,      \* operations in a behaviour
          Talk,       \* whether to print the answers
          SugDepth    \* commits looked at for suggestions
VARIABLES repo,       \* whether there is a repository at all
          commits,    \* commit i: its parents, and the commit (0: none) whose SHA starts with the same `same` digits
          branches,   \* local branch -> commit
          tags,       \* tag -> what it points to
          tagobjs,    \* tag objects ever made -> their commit (0: none)
          remotes,    \* configured remotes
          fetched,    \* <<remote, branch>> -> commit
          head,       \* the checked out branch, or "" and at: the detached commit
          at,
          pc, hist
vars == <<repo, commits, branches, tags, tagobjs, remotes, fetched, head, at, pc, hist>>
B == {"main", "fix/a", "v1", "beef"}
T == {"v1", "rel/1.0", "fix/a"}
R == {"origin", "up"}
RB == {"main", "dev/x"}
Has(f, k) == k \in DOMAIN f
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Cut(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
None == [x \in {} |-> 0]
Tip == IF head = "" THEN at ELSE IF Has(branches, head) THEN branches[head] ELSE 0

Init == /\ repo = FALSE /\ commits = <<>> /\ branches = None /\ tags = None /\ tagobjs = <<>>
        /\ remotes = {} /\ fetched = None /\ head = "main" /\ at = 0
        /\ pc = "tell" /\ hist = <<>>
Create == /\ ~repo /\ repo' = TRUE /\ hist' = Append(hist, [op |-> "init", a |-> "", b |-> "", k |-> 0]) /\ pc' = "tell"
          /\ UNCHANGED <<commits, branches, tags, tagobjs, remotes, fetched, head, at>>
Did(op, a, b, k) == hist' = Append(hist, [op |-> op, a |-> a, b |-> b, k |-> k]) /\ pc' = "tell"
Made(cs, op, k) ==   \* commits added on top of what is checked out
  /\ commits' = commits \o cs
  /\ (IF head = "" THEN at' = Len(commits) + Len(cs) /\ UNCHANGED branches
      ELSE branches' = Put(branches, head, Len(commits) + Len(cs)) /\ UNCHANGED at)
  /\ Did(op, "", "", k)
  /\ UNCHANGED <<repo, tags, tagobjs, remotes, fetched, head>>
Parent == IF Tip = 0 THEN {} ELSE {Tip}
Commit(twin) ==
  /\ Len(commits) < 6
  /\ (twin => commits # <<>> /\ \A i \in 1..Len(commits) : commits[i].like # 1)
  /\ Made(<<[parents |-> Parent, like |-> IF twin THEN 1 ELSE 0, same |-> IF twin THEN 4 ELSE 0]>>, "commit", IF twin THEN 1 ELSE 0)
(* two commits with nearly the same SHA, and their merge *)
Merge ==
  LET n == Len(commits) IN
  /\ n \in 1..4 /\ Tip # 0 /\ \A i \in 1..n : commits[i].same # 7
  /\ Made(<<[parents |-> {Tip}, like |-> 0, same |-> 0],
            [parents |-> {Tip}, like |-> n + 1, same |-> 7],
            [parents |-> {n + 1, n + 2}, like |-> 0, same |-> 0]>>, "merge", 0)
Branch(b) == /\ Tip # 0 /\ ~Has(branches, b)
             /\ branches' = Put(branches, b, Tip) /\ Did("branch", b, "", Tip)
             /\ UNCHANGED <<repo, commits, tags, tagobjs, remotes, fetched, head, at>>
Unbranch(b) == /\ Has(branches, b) /\ b # head
               /\ branches' = Cut(branches, b) /\ Did("unbranch", b, "", 0)
               /\ UNCHANGED <<repo, commits, tags, tagobjs, remotes, fetched, head, at>>
Switch(b) == /\ Has(branches, b) /\ b # head /\ head' = b /\ at' = 0 /\ Did("switch", b, "", 0)
             /\ UNCHANGED <<repo, commits, branches, tags, tagobjs, remotes, fetched>>
Detach(i) == /\ i \in 1..Len(commits) /\ Tip # 0 /\ head' = "" /\ at' = i /\ Did("detach", "", "", i)
             /\ UNCHANGED <<repo, commits, branches, tags, tagobjs, remotes, fetched>>
(* a lightweight tag, an annotated tag, a tag of the annotated tag, a tag of a file *)
Tag(t, kind) ==
  /\ Tip # 0 /\ ~Has(tags, t)
  /\ (kind = "nested" => tagobjs # <<>>)
  /\ (kind \in {"annot", "nested"} => Len(tagobjs) < 3)
  /\ tagobjs' = CASE kind = "annot" -> Append(tagobjs, [c |-> Tip, of |-> 0])
                  [] kind = "nested" -> Append(tagobjs, [c |-> tagobjs[Len(tagobjs)].c, of |-> Len(tagobjs)])
                  [] OTHER -> tagobjs
  /\ tags' = Put(tags, t, CASE kind = "light" -> Tip [] kind = "blob" -> 0 [] OTHER -> tagobjs'[Len(tagobjs')].c)
  /\ Did("tag", t, kind, Tip)
  /\ UNCHANGED <<repo, commits, branches, remotes, fetched, head, at>>
Untag(t) == /\ Has(tags, t) /\ tags' = Cut(tags, t) /\ Did("untag", t, "", 0)
            /\ UNCHANGED <<repo, commits, branches, tagobjs, remotes, fetched, head, at>>
Remote(r) == /\ r \notin remotes /\ remotes' = remotes \cup {r} /\ Did("remote", r, "", 0)
             /\ UNCHANGED <<repo, commits, branches, tags, tagobjs, fetched, head, at>>
Unremote(r) == /\ r \in remotes /\ remotes' = remotes \ {r}
               /\ fetched' = [x \in {y \in DOMAIN fetched : y[1] # r} |-> fetched[x]]
               /\ Did("unremote", r, "", 0)
               /\ UNCHANGED <<repo, commits, branches, tags, tagobjs, head, at>>
Fetch(r, b) == /\ r \in remotes /\ Tip # 0 /\ (Has(fetched, <<r, b>>) => fetched[<<r, b>>] # Tip)
               /\ fetched' = Put(fetched, <<r, b>>, Tip) /\ Did("fetch", r, b, Tip)
               /\ UNCHANGED <<repo, commits, branches, tags, tagobjs, remotes, head, at>>
Pack(w) == /\ commits # <<>> /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].op # "pack")
           /\ Did("pack", w, "", 0)
           /\ UNCHANGED <<repo, commits, branches, tags, tagobjs, remotes, fetched, head, at>>

(* ---- what the parsers answer ---- *)
(* object names: kind of object, which one, how many digits, in upper case *)
Oids == [o : {"commit"}, k : 1..Len(commits), len : {2, 3, 4, 7, 9, 40}, up : BOOLEAN]
        \cup [o : {"tag"}, k : 1..Len(tagobjs), len : {4, 9, 40}, up : {FALSE}]
        \cup (IF commits = <<>> THEN {} ELSE [o : {"blob", "tree"}, k : {0}, len : {4, 9, 40}, up : {FALSE}])
        \cup [o : {"none"}, k : {0}, len : {4, 9, 40, 41}, up : {FALSE}]
Ambiguous(i) == i.o = "commit" /\ \E j \in 1..Len(commits) :
                  /\ i.len <= commits[j].same
                  /\ i.k \in {j, commits[j].like}
Yes(v) == [ok |-> TRUE, v |-> v, c |-> 0, e |-> ""]
Obj(k) == [ok |-> TRUE, v |-> "", c |-> k, e |-> ""]
No(e) == [ok |-> FALSE, v |-> "", c |-> 0, e |-> e]
OfOid(i) == IF Ambiguous(i) THEN No("ambiguous")
            ELSE CASE i.o = "commit" -> Obj(i.k)
                   [] i.o = "tag" -> Obj(tagobjs[i.k].c)
                   [] OTHER -> No("notFound")
CommitOf(i) == IF i.len \in {2, 3, 41} THEN No("invalidFormat") ELSE OfOid(i)
Refs(x) ==  \* full names tried for an abbreviated one, in git's order
  CASE x = "HEAD" -> IF Tip = 0 THEN No("notFound") ELSE Obj(Tip)
    [] Has(tags, x) -> IF tags[x] = 0 THEN No("notFound") ELSE Obj(tags[x])
    [] Has(branches, x) -> Obj(branches[x])
    [] \E b \in DOMAIN branches : x \in {"refs/heads/" \o b, "heads/" \o b}
       -> Obj(branches[CHOOSE b \in DOMAIN branches : x \in {"refs/heads/" \o b, "heads/" \o b}])
    [] \E t \in DOMAIN tags : x \in {"refs/tags/" \o t, "tags/" \o t}
       -> LET t == CHOOSE t \in DOMAIN tags : x \in {"refs/tags/" \o t, "tags/" \o t}
          IN IF tags[t] = 0 THEN No("notFound") ELSE Obj(tags[t])
    [] \E f \in DOMAIN fetched : x = f[1] \o "/" \o f[2] \/ x = "refs/remotes/" \o f[1] \o "/" \o f[2]
       -> Obj(fetched[CHOOSE f \in DOMAIN fetched : x = f[1] \o "/" \o f[2] \/ x = "refs/remotes/" \o f[1] \o "/" \o f[2]])
    [] OTHER -> No("notFound")
Words == B \cup T \cup RB \cup R \cup {"HEAD", "mai", "main2", "MAIN", "fix", "a", "", "origin/main", "refs/heads/main", "heads/fix/a",
         "refs/tags/v1", "tags/rel/1.0", "refs/remotes/up/main", "up/dev/x", "v1 ", "..HEAD", "info"}
OnRemote(r) == {f[2] : f \in {g \in DOMAIN fetched : g[1] = r}}
Real ==
  [branch |-> [w \in Words |-> IF Has(branches, w) THEN Yes(w) ELSE No("notFound")],
   tag |-> [w \in Words |-> IF Has(tags, w) THEN Yes(w) ELSE No("notFound")],
   remote |-> [w \in Words |-> IF w \in remotes THEN Yes(w) ELSE No("notFound")],
   origin |-> [w \in Words |-> IF Has(fetched, <<"origin", w>>) THEN Yes(w)
                               ELSE IF "origin" \notin remotes THEN No("remoteNotFound") ELSE No("notFound")],
   up |-> [w \in Words |-> IF Has(fetched, <<"up", w>>) THEN Yes(w)
                           ELSE IF "up" \notin remotes THEN No("remoteNotFound") ELSE No("notFound")],
   ref |-> [w \in Words |-> Refs(w)],
   commitWords |-> [w \in Words |-> IF w = "beef" THEN No("notFound") ELSE No("invalidFormat")],
   commitOids |-> {[i |-> i, a |-> CommitOf(i)] : i \in Oids},
   refOids |-> {[i |-> i, a |-> OfOid(i)] : i \in {x \in Oids : x.len > 3}},
   lists |-> [branch |-> DOMAIN branches, tag |-> DOMAIN tags, remote |-> remotes, origin |-> OnRemote("origin"), up |-> OnRemote("up")]]
Nowhere ==
  LET all(e) == [w \in Words |-> No(e)] IN
  [branch |-> all("any"), tag |-> all("any"), remote |-> all("any"), origin |-> all("any"), up |-> all("any"),
   ref |-> all("any"), commitWords |-> [w \in Words |-> IF w = "beef" THEN No("notFound") ELSE No("invalidFormat")],
   commitOids |-> {[i |-> i, a |-> CommitOf(i)] : i \in Oids}, refOids |-> {[i |-> i, a |-> OfOid(i)] : i \in {x \in Oids : x.len > 3}},
   lists |-> [branch |-> {}, tag |-> {}, remote |-> {}, origin |-> {}, up |-> {}]]
Answers == IF repo THEN Real ELSE Nowhere
(* the commits suggested: those reachable from HEAD, newest first, no more than SugDepth *)
RECURSIVE From(_)
From(S) == LET N == S \cup UNION {commits[i].parents : i \in S} IN IF N = S THEN S ELSE From(N)
Newest == SortSeq(SetToSeq(IF Tip = 0 THEN {} ELSE From({Tip})), >)
Suggested == SubSeq(Newest, 1, IF Len(Newest) < SugDepth THEN Len(Newest) ELSE SugDepth)

Tell == /\ pc = "tell"
        /\ IF ~Talk THEN TRUE ELSE PrintT("@@" \o ToJson([hist |-> hist, answers |-> Answers, suggested |-> Suggested]))
        /\ pc' = "act" /\ UNCHANGED <<repo, commits, branches, tags, tagobjs, remotes, fetched, head, at, hist>>
Act == /\ pc = "act" /\ Len(hist) < Depth
       /\ IF ~repo THEN Create ELSE
          \/ Merge \/ \E tw \in BOOLEAN : Commit(tw)
          \/ \E b \in B : Branch(b) \/ Unbranch(b) \/ Switch(b)
          \/ \E i \in 1..9 : Detach(i)
          \/ \E t \in T, k \in {"light", "annot", "nested", "blob"} : Tag(t, k)
          \/ \E t \in T : Untag(t)
          \/ \E r \in R : Remote(r) \/ Unremote(r) \/ \E b \in RB : Fetch(r, b)
          \/ \E w \in {"refs", "objects"} : Pack(w)
Next == Tell \/ Act
Spec == Init /\ [][Next]_vars

(* ---- what the property says ---- *)
View == <<repo, commits, branches, tags, tagobjs, remotes, fetched, head, at, pc>>
Good == LET A == Answers IN pc = "act" =>
  /\ \A w \in Words : A.ref[w].ok => A.ref[w].c \in 1..Len(commits)                   \* a reference is an existing commit
  /\ \A w \in Words : \A p \in {"branch", "tag", "remote", "origin", "up"} : A[p][w].ok <=> w \in A.lists[p]
  /\ \A x \in A.commitOids \cup A.refOids :
       (x.a.ok => x.a.c \in 1..Len(commits)) /\ (x.i.o \in {"blob", "tree", "none"} => ~x.a.ok)
  /\ \A x, y \in A.commitOids :                                                       \* nothing ambiguous is accepted
       x.i.o = "commit" /\ y.i.o = "commit" /\ x.i.len = y.i.len /\ x.a.ok /\ y.a.ok /\ commits[x.i.k].like = y.i.k
         => x.i.len > commits[x.i.k].same
  /\ \A k \in 1..Len(Suggested) : Suggested[k] \in From({Tip})
HeadIsCommit == Tip \in 0..Len(commits)
=============================================================================
