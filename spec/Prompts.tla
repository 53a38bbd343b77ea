------------------------------- MODULE Prompts -------------------------------
(***************************************************************************)
(* Prompting parsers (C17).  A grammar has one or more alternatives, each  *)
(* a list of fields: prompting parsers (with source bindings and wrappers  *)
(* outside and inside the prompt) and plain options.  A behaviour chooses  *)
(* a command line token by token, parses it, and then completes the        *)
(* fields in order, asking the questions that nothing else answers.  A run *)
(* with a two-pass context makes a provisional pass first.                 *)
(* Invariants state "asked at most once per pass, only when needed, in     *)
(* order, never when the parse failed"; every behaviour is exported with   *)
(* the questions asked and replayed on the real combinators.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

Entries == ndJsonDeserialize(IOEnv.ENTRIES)
VARIABLES e, alt, cli, line, dk, ph, pass, pc, asked, first, res
vars == <<e, alt, cli, line, dk, ph, pass, pc, asked, first, res>>
E == Entries[e]
None == [j \in {} |-> 0]

(* ------------------------------ one field ------------------------------ *)
(* layer: [t, st, dv]; t: env cfg der (sources), map group optional dflt   *)
Src(l) == l.t \in {"env", "cfg", "der"}
Late(l) == l.t \in {"cfg", "der"}
Ok(tag, i, m) == [k |-> "ok", tag |-> tag, i |-> i, m |-> m]
Bad == [k |-> "bad"]
Ask == [k |-> "ask"]
RECURSIVE Walk(_, _, _)
(* the value that the layers supply, or whether to ask: `out` and `in` are *)
(* one list, i counts from the outermost, m the maps passed so far         *)
Walk(ls, i, m) ==
  IF i > Len(ls) THEN Ask
  ELSE LET l == ls[i]
       IN IF Src(l) THEN (CASE l.st = "ok" -> Ok("src", i, m)
                            [] l.st = "bad" -> Bad
                            [] l.dv # -1 -> Ok("dv", i, m)
                            [] OTHER -> Walk(ls, i + 1, m))
          ELSE Walk(ls, i + 1, IF l.t = "map" THEN m + 1 ELSE m)
Layers(f) == f.out \o f.in
Maps(ls) == Cardinality({i \in 1..Len(ls) : ls[i].t = "map"})
Field(f, c) ==
  CASE c = "bad" -> Bad
    [] f.k = "p" -> IF c = "ok" THEN Ok("cli", 0, Maps(Layers(f))) ELSE Walk(Layers(f), 1, 0)
    [] c = "ok" -> Ok("cli", 0, 0)
    [] f.k = "req" -> Bad
    [] f.k = "opt" -> Ok("undef", 0, 0)
    [] f.k = "dflt" -> Ok("dv", 0, 0)
HasLate(f) == f.k = "p" /\ \E i \in 1..Len(Layers(f)) : Late(Layers(f)[i])
Fields(a) == E.alts[a].fields
TwoPass == \E a \in 1..Len(E.alts) : \E i \in 1..Len(Fields(a)) : HasLate(Fields(a)[i])

(* ----------------------------- the choices ----------------------------- *)
Init == /\ e \in 1..Len(Entries) /\ alt = 0 /\ cli = <<>> /\ line = "" /\ dk = -1
        /\ ph = "choose" /\ pass = 0 /\ pc = 0 /\ asked = <<>> /\ first = <<>> /\ res = "none"
ChooseAlt == /\ ph = "choose" /\ alt = 0
             /\ alt' \in 1..Len(E.alts) /\ dk' \in (IF E.disc.k = "none" THEN {0} ELSE 0..E.disc.nk)
             /\ UNCHANGED <<e, cli, line, ph, pass, pc, asked, first, res>>
Tok == /\ ph = "choose" /\ alt > 0 /\ Len(cli) < Len(Fields(alt))
       /\ \E c \in {"none", "ok", "bad"} :
            /\ LET k == Fields(alt)[Len(cli) + 1].cli IN k \in {"any", c} \/ (k = "good" /\ c # "bad")
            /\ cli' = Append(cli, c)
       /\ UNCHANGED <<e, alt, line, dk, ph, pass, pc, asked, first, res>>
Line == /\ ph = "choose" /\ alt > 0 /\ Len(cli) = Len(Fields(alt))
        /\ line' \in {"plain", "junk", "help", "suggest"}
        /\ (line' = "plain" \/ E.extras)
        /\ (line' = "help" => E.disc.k = "none" \/ dk = alt)
        /\ ph' = "parse" /\ UNCHANGED <<e, alt, cli, dk, pass, pc, asked, first, res>>

(* ------------------------------ the parse ------------------------------ *)
Some == \E i \in 1..Len(cli) : cli[i] # "none"
(* the discriminator: given on the line, bound, or asked                   *)
DKnown == IF dk # 0 THEN dk ELSE E.disc.env
DBad == E.disc.k # "none" /\ DKnown # 0 /\ DKnown # alt /\ Some
Selected == ~E.selector \/ \E i \in 1..Len(cli) : cli[i] = "ok"
(* a plain discriminator that is not given: the default branch, if any     *)
NoBranch == E.disc.k = "req" /\ dk = 0 /\ (Len(E.alts) = E.disc.nk \/ (Some /\ alt # E.disc.nk + 1))
(* an object() knows the plain fields and the given prompting fields before *)
(* it asks anything                                                        *)
Direct(f) == \A i \in 1..Len(f.out) : ~Src(f.out[i])
Refused == \/ line = "junk"
           \/ E.strict /\ ~TwoPass /\ \E i \in 1..Len(cli) : cli[i] = "bad" /\ Direct(Fields(alt)[i])
           \/ ~Selected \/ DBad \/ NoBranch
           \/ E.strict /\ ~TwoPass /\ \E i \in 1..Len(cli) : Fields(alt)[i].k = "req" /\ cli[i] = "none"
Parse == /\ ph = "parse"
         /\ IF line \in {"help", "suggest"} THEN ph' = "done" /\ res' = line
            ELSE IF Refused THEN ph' = "done" /\ res' = "fail"
            ELSE ph' = "go" /\ res' = res
         /\ pass' = IF TwoPass THEN 1 ELSE 2
         /\ UNCHANGED <<e, alt, cli, line, dk, pc, asked, first>>

(* ---------------------------- the completion --------------------------- *)
(* step 0 is the discriminator; afterwards the fields of the branch        *)
DKey == IF DKnown # 0 THEN DKnown ELSE IF E.disc.k = "p" THEN E.disc.key ELSE 0
Branch == IF E.disc.k = "none" THEN alt ELSE IF DKey = 0 THEN E.disc.nk + 1 ELSE DKey
BCli == IF Branch = alt THEN cli ELSE [i \in 1..Len(Fields(Branch)) |-> "none"]
F(i) == Fields(Branch)[i]
R(i) == Field(F(i), BCli[i])
Doomed == \E i \in 1..Len(Fields(Branch)) : R(i) = Bad
End(r) == /\ IF pass = 1 /\ r # "throw"
             THEN \/ pass' = 2 /\ pc' = 0 /\ first' = asked /\ asked' = <<>> /\ res' = res /\ ph' = ph
                  \/ r = "fail" /\ ph' = "done" /\ res' = r /\ UNCHANGED <<pass, pc, asked, first>>
             ELSE ph' = "done" /\ res' = r /\ UNCHANGED <<pass, pc, asked, first>>
          /\ UNCHANGED <<e, alt, cli, line, dk>>
Question(q, ans) ==
  IF ans = "ok" THEN /\ asked' = Append(asked, q) /\ pc' = pc + 1 /\ UNCHANGED <<e, alt, cli, line, dk, ph, pass, first, res>>
  ELSE /\ asked' = Append(asked, q) /\ pc' = -1
       /\ res' = (IF ans = "throw" THEN "throwing" ELSE "failing") /\ UNCHANGED <<e, alt, cli, line, dk, ph, pass, first>>
Skip == pc' = pc + 1 /\ UNCHANGED <<e, alt, cli, line, dk, ph, pass, asked, first, res>>
Disc == /\ ph = "go" /\ pc = 0
        /\ IF E.disc.k = "p" /\ DKnown = 0
           THEN \/ Question(<<0, 0>>, E.disc.ans)
                \/ pass = 1 /\ Skip
           ELSE Skip
(* an answer that does not fit the tokens of another branch                *)
Mismatch == E.disc.k # "none" /\ Some /\ Branch # alt
Step == /\ ph = "go" /\ pc > 0 /\ pc <= Len(Fields(Branch)) /\ ~Mismatch
        /\ IF R(pc) = Ask
           THEN \/ Question(<<Branch, pc>>, F(pc).ans)
                \/ pass = 1 /\ Skip
           ELSE Skip
(* what is doomed to fail may stop before it asks all its questions        *)
GiveUp == /\ ph = "go" /\ pc > 0 /\ (Doomed \/ Mismatch) /\ End("fail")
Stop == /\ ph = "go" /\ pc = -1
        /\ IF res = "throwing" THEN ph' = "done" /\ res' = "throw" /\ UNCHANGED <<e, alt, cli, line, dk, pass, pc, asked, first>>
           ELSE IF pass = 1
           THEN /\ \/ pass' = 2 /\ pc' = 0 /\ first' = asked /\ asked' = <<>> /\ res' = "none" /\ ph' = ph
                   \/ ph' = "done" /\ res' = "fail" /\ UNCHANGED <<pass, pc, asked, first>>
                /\ UNCHANGED <<e, alt, cli, line, dk>>
           ELSE ph' = "done" /\ res' = "fail" /\ UNCHANGED <<e, alt, cli, line, dk, pass, pc, asked, first>>
Finish == /\ ph = "go" /\ pc > Len(Fields(Branch)) /\ ~Doomed /\ ~Mismatch /\ End("ok")
Next == ChooseAlt \/ Tok \/ Line \/ Parse \/ Disc \/ Step \/ GiveUp \/ Stop \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Asked(s) == {s[i] : i \in 1..Len(s)}
AtMostOnce == Cardinality(Asked(asked)) = Len(asked) /\ Cardinality(Asked(first)) = Len(first)
InOrder == \A i, j \in 1..Len(asked) : i < j => asked[i][2] < asked[j][2]
OnlyWhenNeeded == \A q \in Asked(asked) \union Asked(first) :
  IF q[2] = 0 THEN dk = 0 /\ E.disc.env = 0
  ELSE /\ q[1] = Branch /\ BCli[q[2]] = "none"
       /\ \A i \in 1..Len(Layers(F(q[2]))) : LET l == Layers(F(q[2]))[i] IN Src(l) => l.st = "none" /\ l.dv = -1
NeverWhenRefused == (ph = "done" /\ (line # "plain" \/ Refused)) => asked = <<>> /\ first = <<>>
(* a successful run has asked for everything nothing else supplies         *)
AllAsked == (ph = "done" /\ res = "ok") =>
  \A i \in 1..Len(Fields(Branch)) : R(i) = Ask => <<Branch, i>> \in Asked(asked)
FailureIsLast == ph = "done" => \A i \in 1..(Len(asked) - 1) : asked[i][2] = 0 \/ F(asked[i][2]).ans = "ok"

Export == ph # "done" \/ PrintT("@@" \o ToJson([e |-> e, alt |-> alt, cli |-> cli, line |-> line, dk |-> dk, branch |-> Branch,
  first |-> first, asked |-> asked, res |-> res, vals |-> IF res = "ok" THEN [i \in 1..Len(Fields(Branch)) |-> R(i)] ELSE <<>>]))
=============================================================================
