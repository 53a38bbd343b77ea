------------------------------- MODULE Dotenv -------------------------------
(* Reading .env files.  A state is the position of the reader in one of the *)
(* files; a step reads one token (NL, CR, TAB, BOM, NUL stand for control   *)
(* characters, everything else for itself).                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Strings, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.ENTRIES)
VARIABLES ix, f,        \* case, file
          i, mode,      \* position, what is expected
          line,         \* line on which the assignment started
          key, raw, q,  \* assignment being read: name, text, kind of value
          j, out,       \* expansion of raw
          vals,         \* assignments of this file, oldest first
          outer,        \* assignments of the files before
          calls,        \* commands handed to the hook
          res           \* outcome
vars == <<ix, f, i, mode, line, key, raw, q, j, out, vals, outer, calls, res>>
Case == Cases[ix]
Text == Case.files[f].text
Tok == IF i <= Len(Text) THEN Text[i] ELSE "END"
At(k) == IF k >= 1 /\ k <= Len(Text) THEN Text[k] ELSE "END"
Blank == {" ", "TAB"}
Eol == {"NL", "CR"}
NameStart == Lower \cup Upper \cup {"_"}
NamePart == NameStart \cup Digit
LineOf(k) == 1 + Cardinality({m \in 1..(k - 1) : Text[m] = "CR" \/ (Text[m] = "NL" /\ (IF m = 1 THEN TRUE ELSE Text[m - 1] # "CR"))})
Export == <<"e", "x", "p", "o", "r", "t">>
Init == /\ ix \in 1..Len(Cases) /\ f = 1 /\ i = 1 /\ mode = "file" /\ line = 1 /\ key = <<>> /\ raw = <<>> /\ q = "" /\ j = 1
        /\ out = <<>> /\ vals = <<>> /\ outer = <<>> /\ calls = <<>> /\ res = [k |-> "reading"]
Fail == /\ res' = [k |-> "error", file |-> f, line |-> line] /\ mode' = "end"
        /\ UNCHANGED <<ix, f, i, line, key, raw, q, j, out, vals, outer, calls>>
Go(m, n) == /\ mode' = m /\ i' = n /\ UNCHANGED <<ix, f, key, raw, q, j, out, vals, outer, calls, res>>
Stay == UNCHANGED line
(* the latest assignment of a name *)
Has(s, n) == \E k \in 1..Len(s) : s[k][1] = n
Get(s, n) == s[CHOOSE k \in 1..Len(s) : s[k][1] = n /\ \A m \in k + 1..Len(s) : s[m][1] # n][2]
Lookup(n) == IF Has(Case.env, n) THEN Get(Case.env, n) ELSE IF Has(vals, n) THEN Get(vals, n) ELSE IF Has(outer, n) THEN Get(outer, n) ELSE <<>>

File == /\ mode = "file"
        /\ IF f > Len(Case.files)
           THEN mode' = "end" /\ res' = [k |-> "ok"] /\ UNCHANGED <<ix, f, i, line, key, raw, q, j, out, vals, outer, calls>>
           ELSE IF Case.files[f].missing
           THEN f' = f + 1 /\ UNCHANGED <<ix, i, mode, line, key, raw, q, j, out, vals, outer, calls, res>>
           ELSE Go("start", IF Tok = "BOM" THEN 2 ELSE 1) /\ Stay
Start ==
  /\ mode = "start"
  /\ CASE Tok = "END" -> /\ f' = f + 1 /\ i' = 1 /\ mode' = "file" /\ outer' = outer \o vals /\ vals' = <<>>
                         /\ UNCHANGED <<ix, line, key, raw, q, j, out, calls, res>>
       [] Tok \in Blank -> Go("start", i + 1) /\ Stay
       [] Tok \in Eol -> Go("start", i + 1) /\ Stay
       [] Tok = "#" -> Go("comment", i) /\ Stay
       [] OTHER -> /\ line' = LineOf(i)
                   /\ IF i + 6 <= Len(Text) THEN IF SubSeq(Text, i, i + 5) = Export /\ Text[i + 6] \in Blank \cup Eol
                                                 THEN Go("exported", i + 6) ELSE Go("name", i)
                      ELSE Go("name", i)
Comment == mode = "comment" /\ (IF Tok \in Eol \cup {"END"} THEN Go("start", i) ELSE Go("comment", i + 1)) /\ Stay
Exported == mode = "exported" /\ (IF Tok \in Blank THEN Go("exported", i + 1) ELSE Go("name", i)) /\ Stay
Name == /\ mode = "name"
        /\ IF Tok \in NameStart \/ (key # <<>> /\ Tok \in NamePart)
           THEN key' = Append(key, Tok) /\ i' = i + 1 /\ UNCHANGED <<ix, f, mode, line, raw, q, j, out, vals, outer, calls, res>>
           ELSE IF key = <<>> THEN Fail ELSE Go("equals", i) /\ Stay
Equals == /\ mode = "equals"
          /\ CASE Tok \in Blank -> Go("equals", i + 1) /\ Stay
               [] Tok = "=" -> Go("lead", i + 1) /\ Stay
               [] OTHER -> Fail
Lead == /\ mode = "lead"
        /\ IF Tok \in Blank THEN Go("lead", i + 1) /\ Stay
           ELSE /\ q' = IF Tok \in {"'", "\""} THEN Tok ELSE ""
                /\ mode' = IF Tok \in {"'", "\""} THEN "quoted" ELSE "bare"
                /\ i' = IF Tok \in {"'", "\""} THEN i + 1 ELSE i
                /\ raw' = <<>> /\ j' = 1 /\ out' = <<>>
                /\ UNCHANGED <<ix, f, line, key, vals, outer, calls, res>>
Take(s, n, m) == /\ raw' = raw \o s /\ i' = n /\ mode' = m /\ UNCHANGED <<ix, f, line, key, q, j, out, vals, outer, calls, res>>
Quoted == /\ mode = "quoted"
          /\ CASE Tok = "END" -> Fail
               [] Tok = "\\" /\ q = "\"" -> IF At(i + 1) = "END" THEN Fail ELSE Take(<<Tok, Text[i + 1]>>, i + 2, "quoted")
               [] Tok = q -> Take(<<>>, i + 1, "expand")
               [] OTHER -> Take(<<Tok>>, i + 1, "quoted")
RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] \in Blank THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Bare == /\ mode = "bare"
        /\ IF Tok \in Eol \cup {"END"} \/ (Tok = "#" /\ (raw = <<>> \/ At(i - 1) \in Blank))
           THEN raw' = Trim(raw) /\ mode' = "expand" /\ UNCHANGED <<ix, f, i, line, key, q, j, out, vals, outer, calls, res>>
           ELSE Take(<<Tok>>, i + 1, "bare")
(* one pass over the text of a value *)
R(k) == IF k >= 1 /\ k <= Len(raw) THEN raw[k] ELSE "END"
Put(s, n) == /\ out' = out \o s /\ j' = n /\ UNCHANGED <<ix, f, i, mode, line, key, raw, q, vals, outer, calls, res>>
Close(c, k) == IF \E m \in k..Len(raw) : raw[m] = c THEN CHOOSE m \in k..Len(raw) : raw[m] = c /\ \A o \in k..m - 1 : raw[o] # c ELSE 0
Hook(cmd) == IF Case.hook /\ Has(Case.subs, cmd) THEN Get(Case.subs, cmd) ELSE <<>>
Run(cmd, n) == /\ out' = out \o Hook(cmd) /\ j' = n /\ calls' = IF Case.hook THEN Append(calls, cmd) ELSE calls
               /\ UNCHANGED <<ix, f, i, mode, line, key, raw, q, vals, outer, res>>
RECURSIVE NameEnd(_)
NameEnd(k) == IF R(k) \in NamePart THEN NameEnd(k + 1) ELSE k
Escape(c) == CASE c = "n" -> "NL" [] c = "r" -> "CR" [] c = "t" -> "TAB" [] OTHER -> c
Assign == /\ vals' = Append(vals, <<key, out>>) /\ key' = <<>> /\ mode' = "after" /\ UNCHANGED <<ix, f, i, line, raw, q, j, out, outer, calls, res>>
Expand ==
  /\ mode = "expand"
  /\ CASE R(j) = "END" -> Assign
       [] q = "'" -> Put(<<R(j)>>, j + 1)
       [] R(j) = "\\" /\ q = "\"" -> Put(<<Escape(R(j + 1))>>, j + 2)
       [] R(j) = "`" -> LET e == Close("`", j + 1) IN IF e = 0 THEN Fail ELSE Run(SubSeq(raw, j + 1, e - 1), e + 1)
       [] R(j) = "$" /\ R(j + 1) = "(" -> LET e == Close(")", j + 2) IN IF e = 0 THEN Fail ELSE Run(SubSeq(raw, j + 2, e - 1), e + 1)
       [] R(j) = "$" /\ R(j + 1) = "{" -> LET e == Close("}", j + 2) IN IF e = 0 THEN Fail ELSE Put(Lookup(SubSeq(raw, j + 2, e - 1)), e + 1)
       [] R(j) = "$" /\ R(j + 1) \in NameStart -> LET e == NameEnd(j + 1) IN Put(Lookup(SubSeq(raw, j + 1, e - 1)), e)
       [] OTHER -> Put(<<R(j)>>, j + 1)
After == /\ mode = "after"
         /\ CASE Tok \in Blank -> Go("after", i + 1) /\ Stay
              [] Tok = "#" -> Go("comment", i) /\ Stay
              [] Tok \in Eol \cup {"END"} -> Go("start", i) /\ Stay
              [] OTHER -> Fail
All == outer \o vals
Names == {All[k][1] : k \in 1..Len(All)}
Say == /\ mode = "end" /\ mode' = "told"
       /\ PrintT("@@" \o ToJson([ix |-> ix, res |-> res, calls |-> calls, vars |-> [n \in 1..Cardinality(Names) |-> LET s == SetToSeq(Names)[n] IN <<s, Get(All, s)>>]]))
       /\ UNCHANGED <<ix, f, i, line, key, raw, q, j, out, vals, outer, calls, res>>
Next == File \/ Start \/ Comment \/ Exported \/ Name \/ Equals \/ Lead \/ Quoted \/ Bare \/ Expand \/ After \/ Say
Spec == Init /\ [][Next]_vars
(* ---- *)
Literal == mode = "after" /\ q = "'" => vals[Len(vals)][2] = raw          \* nothing happens inside single quotes
OneHook == ~Case.hook => calls = <<>>
GoodNames == \A k \in 1..Len(vals) : vals[k][1] # <<>> /\ vals[k][1][1] \in NameStart
WithinLine == res.k = "error" => res.line <= 1 + Len(Text)
=============================================================================
