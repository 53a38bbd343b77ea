------------------------------- MODULE Shells -------------------------------
(* What a shell makes of the output of a program that was asked for         *)
(* completions.  A behaviour writes the suggestions of a case (or takes the *)
(* bytes the real program printed) and reads them back one character at a   *)
(* time, the way the shell does.  TAB, NL, CR, NUL stand for the control    *)
(* characters, every other token for itself.                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.ENTRIES)
VARIABLES ix, by,      \* case; who wrote the output: 0 the spec, n the code
          wire, pos,   \* the output and how much of it has been read
          field,       \* the field being read
          fields,      \* the fields of this record read so far
          recs,        \* records read
          done
vars == <<ix, by, wire, pos, field, fields, recs, done>>
Case == Cases[ix]
Shell == Case.shell
Ctl == {"TAB", "NL", "CR", "NUL"}
Clean(s) == [k \in 1..Len(s) |-> IF s[k] \in Ctl THEN " " ELSE s[k]]
Cat(ss, sep) == FoldLeft(LAMBDA acc, k : acc \o (IF k = 1 THEN <<>> ELSE sep) \o ss[k], <<>>, [k \in 1..Len(ss) |-> k])
Marker == <<"_", "_", "F", "I", "L", "E", "_", "_", ":">>
Kind(t) == CASE t = "file" -> <<"f", "i", "l", "e">> [] t = "directory" -> <<"d", "i", "r", "e", "c", "t", "o", "r", "y">> [] t = "any" -> <<"a", "n", "y">>
NoDot(e) == IF e # <<>> THEN (IF Head(e) = "." THEN Tail(e) ELSE e) ELSE e
(* writing *)
Percent(p) == FoldLeft(LAMBDA acc, x : acc \o (CASE x = "%" -> <<"%", "2", "5">> [] x = ":" -> <<"%", "3", "A">> [] OTHER -> <<x>>), <<>>, p)
First(s) == IF s.k = "literal" THEN Clean(s.text)
            ELSE Marker \o Kind(s.type) \o <<":">> \o Cat([k \in 1..Len(s.exts) |-> NoDot(s.exts[k])], <<",">>) \o <<":">>
                 \o Percent(Clean(s.pattern)) \o <<":", IF s.hidden THEN "1" ELSE "0">>
Second(s) == IF s.k = "literal" THEN Clean(s.text) ELSE <<"[", "f", "i", "l", "e", "]">>
Write(s) == CASE Shell = "bash" -> First(s)
              [] Shell = "zsh" -> First(s) \o <<"NUL">> \o Clean(s.desc) \o <<"NUL">>
              [] Shell \in {"fish", "nu"} -> First(s) \o <<"TAB">> \o Clean(s.desc)
              [] Shell = "pwsh" -> First(s) \o <<"TAB">> \o Second(s) \o <<"TAB">> \o Clean(s.desc)
Written == IF Case.items = <<>> THEN <<>> ELSE Cat([k \in 1..Len(Case.items) |-> Write(Case.items[k])], IF Shell = "zsh" THEN <<>> ELSE <<"NL">>) \o <<"NL">>
(* reading: every shell reads lines of TAB separated fields, except zsh,    *)
(* which reads pairs of fields that end with NUL                            *)
Tok == wire[pos]
Init == /\ ix \in 1..Len(Cases) /\ by \in 0..Len(Cases[ix].wires)
        /\ wire = IF by = 0 THEN <<"PENDING">> ELSE Cases[ix].wires[by]
        /\ pos = 1 /\ field = <<>> /\ fields = <<>> /\ recs = <<>> /\ done = FALSE
Put == by = 0 /\ wire = <<"PENDING">> /\ wire' = Written /\ UNCHANGED <<ix, by, pos, field, fields, recs, done>>
More == wire # <<"PENDING">> /\ pos <= Len(wire) /\ ~done
Char == /\ More
        /\ IF Shell = "zsh" THEN Tok # "NUL" ELSE Tok \notin {"NL"} \cup (IF Shell = "bash" THEN {} ELSE {"TAB"})
        /\ field' = IF Shell = "zsh" /\ field = <<>> /\ fields = <<>> /\ Tok = "NL" THEN field ELSE Append(field, Tok)
        /\ pos' = pos + 1 /\ UNCHANGED <<ix, by, wire, fields, recs, done>>
EndField == /\ More /\ Shell \notin {"zsh", "bash"} /\ Tok = "TAB"
            /\ fields' = Append(fields, field) /\ field' = <<>> /\ pos' = pos + 1 /\ UNCHANGED <<ix, by, wire, recs, done>>
EndLine == /\ More /\ Shell # "zsh" /\ Tok = "NL"
           /\ recs' = Append(recs, Append(fields, field)) /\ fields' = <<>> /\ field' = <<>> /\ pos' = pos + 1 /\ UNCHANGED <<ix, by, wire, done>>
EndNul == /\ More /\ Shell = "zsh" /\ Tok = "NUL"
          /\ IF Len(fields) = 1 THEN recs' = Append(recs, Append(fields, field)) /\ fields' = <<>>
             ELSE fields' = Append(fields, field) /\ UNCHANGED recs
          /\ field' = <<>> /\ pos' = pos + 1 /\ UNCHANGED <<ix, by, wire, done>>
(* what a record means *)
IsFile(r) == Len(r[1]) >= Len(Marker) /\ (IF Len(r[1]) >= Len(Marker) THEN SubSeq(r[1], 1, Len(Marker)) = Marker ELSE FALSE)
SplitAt(s, sep) == FoldLeft(LAMBDA acc, x : IF x = sep THEN Append(acc, <<>>) ELSE [acc EXCEPT ![Len(acc)] = Append(@, x)], << <<>> >>, s)
Decode(p) == FoldLeft(LAMBDA acc, x : IF Len(acc) >= 2 /\ (IF Len(acc) >= 2 THEN acc[Len(acc) - 1] = "%" ELSE FALSE)
                                      THEN (CASE acc[Len(acc)] = "2" /\ x = "5" -> Append(SubSeq(acc, 1, Len(acc) - 2), "PERCENT")
                                              [] acc[Len(acc)] = "3" /\ x = "A" -> Append(SubSeq(acc, 1, Len(acc) - 2), ":")
                                              [] OTHER -> Append(acc, x))
                                      ELSE Append(acc, x), <<>>, p)
Unpercent(p) == LET d == Decode(p) IN [k \in 1..Len(d) |-> IF d[k] = "PERCENT" THEN "%" ELSE d[k]]
Meaning(r) ==
  LET d == IF Shell = "bash" THEN <<>> ELSE IF Len(r) >= 2 THEN r[Len(r)] ELSE <<"MISSING">>
  IN IF Len(r) # (CASE Shell = "bash" -> 1 [] Shell = "pwsh" -> 3 [] OTHER -> 2) THEN [k |-> "broken"]
     ELSE IF ~IsFile(r)
     THEN IF Shell = "pwsh" /\ (IF Shell = "pwsh" THEN r[2] # r[1] ELSE FALSE) THEN [k |-> "broken"] ELSE [k |-> "literal", text |-> r[1], desc |-> d]
     ELSE LET p == SplitAt(r[1], ":")
          IN IF Len(p) # 5 THEN [k |-> "broken"]
             ELSE [k |-> "file", type |-> p[2], exts |-> IF p[3] = <<>> THEN <<>> ELSE SplitAt(p[3], ","), pattern |-> Unpercent(p[4]), hidden |-> p[5], desc |-> d]
Read == [k \in 1..Len(recs) |-> Meaning(recs[k])]
(* what was meant *)
Meant(s) ==
  LET d == IF Shell = "bash" THEN <<>> ELSE Clean(s.desc)
  IN IF s.k = "literal" THEN [k |-> "literal", text |-> Clean(s.text), desc |-> d]
     ELSE [k |-> "file", type |-> Kind(s.type), exts |-> [k \in 1..Len(s.exts) |-> NoDot(s.exts[k])], pattern |-> Clean(s.pattern), hidden |-> <<IF s.hidden THEN "1" ELSE "0">>, desc |-> d]
Wanted == [k \in 1..Len(Case.items) |-> Meant(Case.items[k])]
(* the entries of a directory tree a file suggestion stands for             *)
Starts(s, p) == Len(p) <= Len(s) /\ (IF Len(p) <= Len(s) THEN SubSeq(s, 1, Len(p)) = p ELSE FALSE)
Ends(s, p) == Len(p) <= Len(s) /\ (IF Len(p) <= Len(s) THEN SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p ELSE FALSE)
Dotted(s) == s # <<>> /\ (IF s # <<>> THEN Head(s) = "." ELSE FALSE)
Fits(e) == /\ e.dir = Case.dir /\ Starts(e.name, Case.base)
           /\ Dotted(e.name) => Dotted(Case.base)
           /\ e.isdir \/ (Case.type # "directory" /\ (Case.exts = <<>> \/ \E k \in 1..Len(Case.exts) : Ends(e.name, <<".">> \o NoDot(Case.exts[k]))))
Entries == {k \in 1..Len(Case.tree) : Fits(Case.tree[k])}
Finish == /\ wire # <<"PENDING">> /\ pos > Len(wire) /\ ~done
          /\ done' = TRUE /\ UNCHANGED <<ix, by, wire, pos, field, fields, recs>>
          /\ IF Case.mode = "files" THEN PrintT("@@" \o ToJson([ix |-> ix, entries |-> Entries]))
             ELSE IF by = 0 THEN PrintT("@@" \o ToJson([ix |-> ix, by |-> 0, wanted |-> Wanted]))
             ELSE IF Read = Wanted /\ fields = <<>> /\ field = <<>> THEN TRUE
             ELSE PrintT("@@" \o ToJson([ix |-> ix, by |-> by, wanted |-> Wanted, read |-> Read]))
Next == Put \/ Char \/ EndField \/ EndLine \/ EndNul \/ Finish
Spec == Init /\ [][Next]_vars
(* the protocol loses nothing, whatever the suggestions *)
Faithful == (done /\ by = 0 /\ Case.mode = "wire") => (Read = Wanted /\ fields = <<>> /\ field = <<>>)
Ordered == \A k \in 1..Len(recs) : k <= Len(Case.items) \/ by # 0
=============================================================================
