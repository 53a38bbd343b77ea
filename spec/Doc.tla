-------------------------------- MODULE Doc --------------------------------
(* Printing a help page.  A printer walks over the page and puts down       *)
(* pieces: words with their quotes, and where each may start a line.  The   *)
(* words are those of the page, whatever the width; only the layout varies. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
Pages == ndJsonDeserialize(IOEnv.ENTRIES)   \* [page, o (options)]
VARIABLES ix, pc, out
vars == <<ix, pc, out>>
Pg == Pages[ix].page
O == Pages[ix].o

(* ---- pieces ---- *)
(* q: "" as it is, "v" a quoted value, "t" between backquotes, "u" a URL    *)
(* nl: what comes before it: 0 nothing, 1 it begins a line, 2 a blank line  *)
(* g: whether white space must come before it                              *)
(* m: how far it is indented if it is the first on its line (-1: anywhere)  *)
Piece(w, q, nl, m) == [w |-> w, q |-> q, nl |-> nl, m |-> m, g |-> FALSE]
Apart(ps) == [i \in 1..Len(ps) |-> [ps[i] EXCEPT !.g = i > 1]]
Quote(k, quotes) == IF ~quotes THEN "" ELSE CASE k = "value" -> "v" [] k = "values" -> "v" [] k = "url" -> "u" [] OTHER -> "t"
OneTerm(t, quotes, m) ==
  CASE t.k = "text" -> Apart([i \in 1..Len(t.ws) |-> Piece(t.ws[i], "", 0, m)])
    [] t.k = "optionNames" -> [i \in 1..2 * Len(t.ws) - 1 |->
                                 IF i % 2 = 0 THEN Piece("/", "", 0, m) ELSE Piece(t.ws[(i + 1) \div 2], Quote(t.k, quotes), 0, m)]
    [] t.k \in {"break", "para"} -> <<>>
    [] OTHER -> Apart([i \in 1..Len(t.ws) |-> Piece(t.ws[i], Quote(t.k, quotes), 0, m)])
RECURSIVE Terms(_, _, _, _)
(* nl: 1 after a line break, 2 between paragraphs, applied to what follows *)
Terms(ts, quotes, m, nl) ==
  IF ts = <<>> THEN <<>>
  ELSE LET t == Head(ts)  ps == OneTerm(t, quotes, m)
       IN CASE t.k = "break" -> Terms(Tail(ts), quotes, m, IF nl > 1 THEN nl ELSE 1)
            [] t.k = "para" -> Terms(Tail(ts), quotes, m, 2)
            [] ps = <<>> -> Terms(Tail(ts), quotes, m, nl)
            [] OTHER -> <<[ps[1] EXCEPT !.nl = IF nl > @ THEN nl ELSE @]>> \o Tail(ps) \o Terms(Tail(ts), quotes, m, 0)
Msg(ts, m, nl) == Terms(ts, ~O.colors, m, nl)
Glue(ws, m) == [i \in 1..Len(ws) |-> Piece(ws[i], "", 0, m)]

(* ---- the terms of entries ---- *)
Alternate(ws, sep, m) == [i \in 1..2 * Len(ws) - 1 |-> Piece(IF i % 2 = 0 THEN sep ELSE ws[(i + 1) \div 2], "", 0, m)]
Term(e) ==
  LET ps == CASE e.t = "option" -> Alternate(e.ns, ",", -1) \o (IF e.mv = "" THEN <<>> ELSE <<[Piece(e.mv, "", 0, -1) EXCEPT !.g = TRUE]>>)
              [] e.t = "argument" -> <<Piece(e.mv, "", 0, -1)>>
              [] e.t = "command" -> <<Piece(e.nm, "", 0, -1)>>
              [] OTHER -> <<Piece("[...]", "", 0, -1)>>
  IN <<[ps[1] EXCEPT !.nl = 1, !.m = O.termIndent]>> \o Tail(ps)
Hidden(e) == e.hid \in {"all", "doc", "help"}

(* ---- defaults and choices behind a description ---- *)
RECURSIVE CutAt(_, _, _)
CutAt(ts, i, left) == \* how many of the choices' terms are kept
  IF i > Len(ts) THEN Len(ts)
  ELSE IF ts[i].k = "value"
       THEN IF left = 0 THEN (IF i > 1 /\ ts[i - 1].k = "text" THEN i - 2 ELSE i - 1) ELSE CutAt(ts, i + 1, left - 1)
       ELSE CutAt(ts, i + 1, left)
Column == O.termIndent + O.termWidth + 2
Behind(e) ==
  (IF O.showDefault /\ e.default # <<>>
   THEN Glue(O.dpre, Column) \o Terms(e.default, ~O.colors, Column, 0) \o Glue(O.dsuf, Column) ELSE <<>>)
  \o (IF O.showChoices /\ e.choices # <<>>
      THEN LET k == CutAt(e.choices, 1, O.maxItems)
           IN Glue(O.cpre, Column) \o Glue(O.clabel, Column) \o Terms(SubSeq(e.choices, 1, k), FALSE, Column, 0)
              \o (IF k < Len(e.choices) THEN Glue(<<",", "...">>, Column) ELSE <<>>) \o Glue(O.csuf, Column)
      ELSE <<>>)
Entry(e) == LET d == Msg(e.desc, Column, 0) \o Behind(e)
            IN Term(e) \o (IF d = <<>> THEN <<>> ELSE <<[d[1] EXCEPT !.g = TRUE]>> \o Tail(d))

(* ---- sections: commands first, then mixed ones, then the others; an      *)
(* untitled one a step earlier; otherwise as given                          *)
Seen(s) == SelectSeq(s.entries, LAMBDA e : ~Hidden(e))
Score(s) == LET C == {i \in 1..Len(Seen(s)) : Seen(s)[i].t = "command"}
            IN (IF C # {} /\ Cardinality(C) = Len(Seen(s)) THEN 0 ELSE IF C # {} THEN 1 ELSE 2) - (IF s.title = "" THEN 1 ELSE 0)
Before(i, j) == LET a == IF O.order = "title" THEN Pg.sections[i].rank ELSE IF O.order = "same" THEN 0 ELSE Score(Pg.sections[i])
                    b == IF O.order = "title" THEN Pg.sections[j].rank ELSE IF O.order = "same" THEN 0 ELSE Score(Pg.sections[j])
                IN a < b \/ (a = b /\ i < j)
Order == SortSeq([i \in 1..Len(Pg.sections) |-> i], Before)
Entries(s) == FlattenSeq([i \in 1..Len(Seen(s)) |-> Entry(Seen(s)[i])])
Start(ps, nl, m) == IF ps = <<>> THEN <<>> ELSE <<[ps[1] EXCEPT !.nl = nl, !.m = m]>> \o Tail(ps)
Section(s) == IF Seen(s) = <<>> THEN <<>>
              ELSE IF s.title = "" THEN Start(Entries(s), 2, O.termIndent)
              ELSE Start(Glue(<<s.title, ":">>, -1), 2, 0) \o Entries(s)
Block(name, ts) == IF ts = <<>> THEN <<>>
                   ELSE Start(Glue(<<name, ":">>, -1), 2, 0) \o Start(Msg(ts, 2, 0), 1, 2)

(* ---- the printer ---- *)
Init == ix \in 1..Len(Pages) /\ pc = "brief" /\ out = <<>>
Step(next, ps) == pc' = next /\ out' = out \o ps /\ UNCHANGED ix
Brief == pc = "brief" /\ Step("usage", Start(Msg(Pg.brief, 0, 0), 1, 0))
Usage == pc = "usage" /\ Step("description", IF ~O.showUsage \/ Pg.usage = <<>> THEN <<>>
           ELSE Start(Glue(<<"Usage:">> \o <<O.name>> \o Pg.usage, -1), 1, 0))
Description == pc = "description" /\ Step("sections", Start(Msg(Pg.description, 0, 0), 2, 0))
Sections == pc = "sections" /\ Step("examples", FlattenSeq([i \in 1..Len(Order) |-> Section(Pg.sections[Order[i]])]))
Examples == pc = "examples" /\ Step("author", Block("Examples", Pg.examples))
Author == pc = "author" /\ Step("bugs", Block("Author", Pg.author))
Bugs == pc = "bugs" /\ Step("footer", Block("Bugs", Pg.bugs))
Footer == pc = "footer" /\ Step("say", Start(Msg(Pg.footer, 0, 0), 2, 0))
Say == pc = "say" /\ PrintT("@@" \o ToJson([ix |-> ix, out |-> out])) /\ Step("done", <<>>)
Next == Brief \/ Usage \/ Description \/ Sections \/ Examples \/ Author \/ Bugs \/ Footer \/ Say
Spec == Init /\ [][Next]_vars

(* ---- what the property says ---- *)
RECURSIVE WordsOf(_)
WordsOf(ts) == IF ts = <<>> THEN {} ELSE ToSet(Head(ts).ws) \cup WordsOf(Tail(ts))
Out == {out[i].w : i \in 1..Len(out)}
Visible == UNION {UNION {WordsOf(Seen(Pg.sections[i])[j].desc) : j \in 1..Len(Seen(Pg.sections[i]))} : i \in 1..Len(Pg.sections)}
NothingLost == pc = "done" =>
  (WordsOf(Pg.brief) \cup WordsOf(Pg.description) \cup WordsOf(Pg.examples) \cup WordsOf(Pg.author)
   \cup WordsOf(Pg.bugs) \cup WordsOf(Pg.footer) \cup Visible) \subseteq Out
NothingHidden == pc = "done" =>
  \A i \in 1..Len(Pg.sections) : \A e \in ToSet(Pg.sections[i].entries) : Hidden(e) => WordsOf(e.desc) \cap Out = {}
=============================================================================
