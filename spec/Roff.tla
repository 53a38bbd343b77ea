-------------------------------- MODULE Roff --------------------------------
(* Manual pages.  A reader of the man macros takes the page line by line    *)
(* and yields headings, paragraphs, tags and words; they have to be the     *)
(* ones of the documented page, in order: no text may be taken for a        *)
(* request or an escape, or be lost.  A hyphen that is to be copied as      *)
(* typed (\-) is read as ^.                                                 *)
EXTENDS Strings, SequencesExt, Json, IOUtils, TLC
Entries == ndJsonDeserialize(IOEnv.ENTRIES)
VARIABLES ix, pos, out, tag, told
vars == <<ix, pos, out, tag, told>>
E == Entries[ix]
Upper1(c) == IF c \in Lower THEN Ch(UpperS, IndexIn(c, LowerS)) ELSE c
RECURSIVE MapCh(_, _, _)
MapCh(s, F(_), i) == IF i > Len(s) THEN "" ELSE F(Ch(s, i)) \o MapCh(s, F, i + 1)
Up(s) == MapCh(s, Upper1, 1)
Hyphen(c) == IF c = "-" THEN "^" ELSE c
Hy(s) == MapCh(s, Hyphen, 1)
(* ---- what a page says ---- *)
RECURSIVE Joined(_, _)
Joined(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Joined(Tail(ss), sep)
TermText(t, quoted) ==
  CASE t.k = "text" -> t.ws[1]
    [] t.k \in {"optionName", "commandLine", "url"} -> Hy(t.ws[1])
    [] t.k = "optionNames" -> Joined([i \in 1..Len(t.ws) |-> Hy(t.ws[i])], ", ")
    [] t.k \in {"value", "values"} -> Joined([i \in 1..Len(t.ws) |-> IF quoted THEN "\"" \o t.ws[i] \o "\"" ELSE t.ws[i]], " ")
    [] t.k = "break" -> "\n"
    [] OTHER -> t.ws[1]
Text(m, quoted) == Joined([i \in 1..Len(m) |-> TermText(m[i], quoted)], "")
(* words and paragraph breaks of a text *)
RECURSIVE Words(_, _, _, _, _)
Words(s, i, w, nl, acc) ==       \* nl: line ends since the last word
  LET flush == IF w = "" THEN acc ELSE Append(acc, "w " \o w) IN
  IF i > Len(s) THEN flush
  ELSE LET c == Ch(s, i) IN
       IF c = "\n" THEN Words(s, i + 1, "", nl + 1, IF nl = 1 THEN Append(flush, "PP") ELSE flush)
       ELSE IF c = " " THEN Words(s, i + 1, "", nl, flush)
       ELSE Words(s, i + 1, w \o c, 0, acc)
Ev(s) == Words(s, 1, "", 0, <<>>)
Head2(s) == <<"SH " \o Up(s)>>
Shown(e, marks) == e.hid \notin marks
Term(e) == CASE e.t = "option" -> Joined([i \in 1..Len(e.ns) |-> Hy(e.ns[i])], ", ") \o (IF e.mv = "" THEN "" ELSE " " \o e.mv)
             [] e.t = "command" -> Hy(e.nm)
             [] OTHER -> e.mv
Body(e) == (IF e.desc = <<>> THEN "" ELSE Text(e.desc, TRUE) \o " ")
           \o (IF e.default = <<>> THEN "" ELSE "[" \o Text(e.default, TRUE) \o "] ")
           \o (IF e.choices = <<>> THEN "" ELSE "(choices: " \o Text(e.choices, FALSE) \o ")")
Visible(s) == SelectSeq(s.entries, LAMBDA e : Shown(e, {"all", "doc", "help"}))
Entry(e) == <<"TP">> \o Ev(Term(e)) \o <<"|">> \o Ev(Body(e))
SectionOf(title, s) == IF Visible(s) = <<>> THEN <<>>
   ELSE Head2(IF title # "" THEN title ELSE IF s.title # "" THEN s.title
              ELSE IF \A i \in 1..Len(Visible(s)) : Visible(s)[i].t = "command" THEN "COMMANDS"
              ELSE IF \A i \in 1..Len(Visible(s)) : Visible(s)[i].t = "argument" THEN "ARGUMENTS" ELSE "OPTIONS")
        \o FlattenSeq([i \in 1..Len(Visible(s)) |-> Entry(Visible(s)[i])])
Usage1(u) ==
  LET base == CASE u.t = "option" -> Joined([i \in 1..Len(u.ns) |-> Hy(u.ns[i])], " | ") \o (IF u.mv = "" THEN "" ELSE " " \o u.mv)
                [] u.t = "command" -> Hy(u.nm)
                [] OTHER -> u.mv
  IN IF u.wrap = "many" THEN "[" \o base \o " ...]" ELSE IF u.wrap = "some" THEN (IF u.t = "option" THEN "[" \o base \o "] ..." ELSE base \o " ...")
     ELSE IF u.wrap = "opt" \/ u.t = "option" THEN "[" \o base \o "]" ELSE base
UsageText(us) == Joined([i \in 1..Len(us) |-> Usage1(us[i])], " ")
Pick(a, b) == IF a # <<>> THEN a ELSE b
Msg(title, m) == IF m = <<>> THEN <<>> ELSE Head2(title) \o Ev(Text(m, TRUE))
P == E.page
O == E.o
Arg(s) == "a " \o s
Expected ==
  <<"TH", Arg(Hy(Up(O.name))), Arg(ToString(O.section))>>
  \o (IF O.date # "" THEN <<Arg(O.date)>> ELSE IF O.version # "" \/ O.manual # "" THEN <<Arg("")>> ELSE <<>>)
  \o (IF O.version # "" THEN <<Arg(Hy(O.name) \o " " \o O.version)>> ELSE IF O.manual # "" THEN <<Arg("")>> ELSE <<>>)
  \o (IF O.manual # "" THEN <<Arg(O.manual)>> ELSE <<>>)
  \o Head2("NAME") \o <<"w " \o Hy(O.name)>> \o (IF Pick(O.brief, P.brief) = <<>> THEN <<>> ELSE <<"w ^">> \o Ev(Text(Pick(O.brief, P.brief), TRUE)))
  \o (IF P.hasusage THEN Head2("SYNOPSIS") \o <<"B", Arg(Hy(O.name))>> \o Ev(UsageText(SelectSeq(P.usage, LAMBDA u : Shown(u, {"all", "usage", "help"})))) ELSE <<>>)
  \o Msg("DESCRIPTION", Pick(O.description, P.description))
  \o FlattenSeq([i \in 1..Len(P.sections) |-> SectionOf("", P.sections[i])])
  \o FlattenSeq([i \in 1..Len(O.extra) |-> SectionOf(O.extra[i].title, O.extra[i])])
  \o Msg("EXAMPLES", Pick(O.examples, P.examples))
  \o Msg("BUGS", Pick(O.bugs, P.bugs))
  \o (IF O.see = <<>> THEN <<>> ELSE Head2("SEE ALSO") \o FlattenSeq([i \in 1..Len(O.see) |->
        <<"BR", Arg(Hy(O.see[i].name)), Arg("(" \o ToString(O.see[i].section) \o ")" \o (IF i < Len(O.see) THEN "," ELSE ""))>>]))
  \o Msg("AUTHOR", Pick(O.author, P.author))
  \o (IF Pick(O.footer, P.footer) = <<>> THEN <<>> ELSE <<"PP">> \o Ev(Text(Pick(O.footer, P.footer), TRUE)))
(* ---- the reader ---- *)
(* escapes; the result is the text with the font left at its end *)
Bad == [ok |-> FALSE, s |-> "", font |-> "R", at |-> 0]
RECURSIVE Read(_, _, _, _, _)
Read(s, i, quoted, font, acc) ==      \* quoted: up to the closing quote
  IF i > Len(s) THEN IF quoted THEN Bad ELSE [ok |-> TRUE, s |-> acc, font |-> font, at |-> i]
  ELSE LET c == Ch(s, i) IN
       IF quoted /\ c = "\"" THEN [ok |-> TRUE, s |-> acc, font |-> font, at |-> i + 1]
       ELSE IF c # "\\" THEN Read(s, i + 1, quoted, font, acc \o c)
       ELSE IF i = Len(s) THEN Bad
       ELSE LET d == Ch(s, i + 1) IN
            CASE d = "\\" -> Read(s, i + 2, quoted, font, acc \o "\\")
              [] d = "-" -> Read(s, i + 2, quoted, font, acc \o "^")
              [] d = "&" -> Read(s, i + 2, quoted, font, acc)
              [] d = "e" -> Read(s, i + 2, quoted, font, acc \o "\\")
              [] d = "f" -> IF i + 2 <= Len(s) THEN (IF Ch(s, i + 2) \in {"B", "I", "R"} THEN Read(s, i + 3, quoted, Ch(s, i + 2), acc) ELSE Bad) ELSE Bad
              [] d = "(" -> IF i + 3 > Len(s) THEN Bad ELSE IF SubSeq(s, i + 2, i + 3) = "dq" THEN Read(s, i + 4, quoted, font, acc \o "\"")
                            ELSE IF SubSeq(s, i + 2, i + 3) = "rs" THEN Read(s, i + 4, quoted, font, acc \o "\\") ELSE Bad
              [] OTHER -> Bad
RECURSIVE Args(_, _, _)
Args(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF Ch(s, i) = " " THEN Args(s, i + 1, acc)
  ELSE IF Ch(s, i) = "\"" THEN LET a == Read(s, i + 1, TRUE, "R", "") IN IF a.ok THEN Args(s, a.at, Append(acc, Arg(a.s))) ELSE <<"broken argument">>
  ELSE LET j == IF FindCh(s, " ", i) = 0 THEN Len(s) + 1 ELSE FindCh(s, " ", i)
           a == Read(SubSeq(s, i, j - 1), 1, FALSE, "R", "")
       IN IF a.ok THEN Args(s, j, Append(acc, Arg(a.s))) ELSE <<"broken argument">>
Control(l) == l # "" /\ Ch(l, 1) \in {".", "'"}
Request(l) == LET j == FindCh(l, " ", 1) IN IF j = 0 THEN Drop(l, 1) ELSE SubSeq(l, 2, j - 1)
Rest(l) == LET j == FindCh(l, " ", 1) IN IF j = 0 THEN <<>> ELSE Args(Drop(l, j), 1, <<>>)
RECURSIVE SpacedArgs(_)
SpacedArgs(a) == IF a = <<>> THEN "" ELSE Drop(a[1], 2) \o (IF Len(a) > 1 THEN " " \o SpacedArgs(Tail(a)) ELSE "")
Line(l) ==
  IF Control(l) THEN
    CASE Request(l) = "SH" -> <<"SH " \o SpacedArgs(Rest(l))>>
      [] Request(l) \in {"PP", "TP"} /\ Rest(l) = <<>> -> <<Request(l)>>
      [] Request(l) \in {"TH", "B", "BR"} -> <<Request(l)>> \o Rest(l)
      [] OTHER -> <<"unknown request " \o l>>
  ELSE LET t == Read(l, 1, FALSE, "R", "") IN
       IF ~t.ok THEN <<"broken escape">> ELSE IF t.font # "R" THEN <<"font left on">> ELSE Ev(t.s)
Step ==
  /\ pos <= Len(E.lines) /\ pos' = pos + 1 /\ UNCHANGED <<ix, told>>
  /\ LET l == E.lines[pos] IN
     /\ tag' = (IF Control(l) THEN Request(l) = "TP" ELSE FALSE)
     /\ out' = out \o Line(l) \o (IF tag /\ ~Control(l) THEN <<"|">> ELSE <<>>)
FirstDiff(a, b) == IF \E i \in 1..Len(a) : i > Len(b) \/ (i <= Len(b) /\ a[i] # b[i])
                   THEN CHOOSE i \in 1..Len(a) : (i > Len(b) \/ (i <= Len(b) /\ a[i] # b[i])) /\ \A j \in 1..(i - 1) : j <= Len(b) /\ a[j] = b[j]
                   ELSE Len(a) + 1
Say == /\ pos > Len(E.lines) /\ ~told /\ told' = TRUE /\ UNCHANGED <<ix, pos, out, tag>>
       /\ LET x == Expected  ok == x = out  d == FirstDiff(x, out) IN
          PrintT("@@" \o ToJson([ix |-> ix, ok |-> ok, n |-> Len(x), want |-> IF ok THEN <<>> ELSE SubSeq(x, d, IF d + 3 > Len(x) THEN Len(x) ELSE d + 3),
                                 got |-> IF ok THEN <<>> ELSE SubSeq(out, d, IF d + 3 > Len(out) THEN Len(out) ELSE d + 3)]))
Init == ix \in 1..Len(Entries) /\ pos = 1 /\ out = <<>> /\ tag = FALSE /\ told = FALSE
Next == Step \/ Say
Spec == Init /\ [][Next]_vars
=============================================================================
