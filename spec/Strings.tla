------------------------------ MODULE Strings ------------------------------
(* Character-level helpers on TLC strings. *)
EXTENDS Naturals, Sequences, Integers

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p)   == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Drop(s, n)       == IF n >= Len(s) THEN SubSeq(s, 1, 0) ELSE SubSeq(s, n + 1, Len(s))
Ch(s, i)         == SubSeq(s, i, i)
Chars(s)         == {Ch(s, i) : i \in 1..Len(s)}

LowerS == "abcdefghijklmnopqrstuvwxyz"
UpperS == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DigitS == "0123456789"
Lower  == Chars(LowerS)
Upper  == Chars(UpperS)
Digit  == Chars(DigitS)
Alnum  == Lower \cup Upper \cup Digit

IndexIn(c, s) == CHOOSE i \in 1..Len(s) : Ch(s, i) = c
DigitVal(c)   == IndexIn(c, DigitS) - 1

AllIn(s, from, S) == \A i \in from..Len(s) : Ch(s, i) \in S
AllDigits(s) == Len(s) > 0 /\ AllIn(s, 1, Digit)

ToLowerCh(c) == IF c \in Upper THEN Ch(LowerS, IndexIn(c, UpperS)) ELSE c
RECURSIVE ToLowerFrom(_, _)
ToLowerFrom(s, i) == IF i > Len(s) THEN "" ELSE ToLowerCh(Ch(s, i)) \o ToLowerFrom(s, i + 1)
ToLower(s) == ToLowerFrom(s, 1)

RECURSIVE NatFrom(_, _, _)
NatFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE NatFrom(s, i + 1, acc * 10 + DigitVal(Ch(s, i)))
NatOf(s) == NatFrom(s, 1, 0)

(* index of the first occurrence of character c at or after i, 0 if none *)
RECURSIVE FindCh(_, _, _)
FindCh(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE FindCh(s, c, i + 1)
Contains(s, c) == FindCh(s, c, 1) # 0
=============================================================================
