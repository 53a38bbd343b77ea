------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The languages of the built-in value parsers (property C30).             *)
(*                                                                         *)
(* A behaviour reads one command-line argument token by token: the state   *)
(* is a parser configuration and the characters read so far.  In every     *)
(* state the specification decides whether the characters read form an     *)
(* argument of the parser's documented language and which value they       *)
(* denote.  Verdicts are "yes" (with the denoted value), "no", and "any"   *)
(* for arguments on which the documentation is silent.                     *)
(*                                                                         *)
(* Numbers are kept as sequences of decimal digits, so nothing here is     *)
(* bounded by the word size of the checker.                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES e, s, n
vars == <<e, s, n>>

---------------------------------------------------------------------------
(* Characters and sequences of characters *)
DigitSeq == <<"0","1","2","3","4","5","6","7","8","9">>
Digit    == Range(DigitSeq)
LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Lower    == Range(LowerSeq)
Upper    == Range(UpperSeq)
Alpha    == Lower \cup Upper
Alnum    == Alpha \cup Digit
HexLow   == Digit \cup {"a","b","c","d","e","f"}
Hex      == HexLow \cup {"A","B","C","D","E","F"}
Blank    == {" ", "\t", "\n"}
LowOf    == [c \in Upper |-> LowerSeq[CHOOSE i \in 1..26 : UpperSeq[i] = c]]
UpOf     == [c \in Lower |-> UpperSeq[CHOOSE i \in 1..26 : LowerSeq[i] = c]]
DVal     == [c \in Digit |-> (CHOOSE i \in 1..10 : DigitSeq[i] = c) - 1]
HexSeq   == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HVal     == [c \in HexLow |-> (CHOOSE i \in 1..16 : HexSeq[i] = c) - 1]

Low(c)   == IF c \in Upper THEN LowOf[c] ELSE c
Up(c)    == IF c \in Lower THEN UpOf[c] ELSE c
LowS(x)  == [i \in 1..Len(x) |-> Low(x[i])]
UpS(x)   == [i \in 1..Len(x) |-> Up(x[i])]
All(x, S) == \A i \in 1..Len(x) : x[i] \in S
Has(x, c) == \E i \in 1..Len(x) : x[i] = c
Count(x, c) == Cardinality({i \in 1..Len(x) : x[i] = c})
From(x, i) == SubSeq(x, i, Len(x))
Upto(x, i) == SubSeq(x, 1, i)
Starts(x, p) == Len(x) >= Len(p) /\ Upto(x, Len(p)) = p
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j
MaxOf(S) == CHOOSE i \in S : \A j \in S : i >= j
(* positions where the separator occurs *)
At(x, p) == {i \in 1..(Len(x) - Len(p) + 1) : SubSeq(x, i, i + Len(p) - 1) = p}
RECURSIVE Split(_, _)
Split(x, c) ==
  LET P == {i \in 1..Len(x) : x[i] = c} IN
  IF P = {} THEN <<x>> ELSE <<Upto(x, MinOf(P) - 1)>> \o Split(From(x, MinOf(P) + 1), c)
RECURSIVE JoinWith(_, _)
JoinWith(xs, sep) ==
  IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o sep \o JoinWith(Tail(xs), sep)
TrimL(x) == IF All(x, Blank) THEN <<>> ELSE From(x, MinOf({i \in 1..Len(x) : x[i] \notin Blank}))
TrimR(x) == IF All(x, Blank) THEN <<>> ELSE Upto(x, MaxOf({i \in 1..Len(x) : x[i] \notin Blank}))
Trim(x)  == TrimL(TrimR(x))

---------------------------------------------------------------------------
(* Verdicts *)
Yes(val) == [v |-> "yes", val |-> val]
No       == [v |-> "no", val |-> <<>>]
Maybe      == [v |-> "any", val |-> <<>>]
IfYes(b, val) == IF b THEN Yes(val) ELSE No

---------------------------------------------------------------------------
(* Natural numbers as digit sequences *)
IsDigits(x) == Len(x) > 0 /\ All(x, Digit)
Strip(x) == IF All(x, {"0"}) THEN <<"0">> ELSE From(x, MinOf({i \in 1..Len(x) : x[i] # "0"}))
(* -1, 0, 1 on stripped digit sequences *)
CmpD(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET D == {i \in 1..Len(a) : a[i] # b[i]} IN
       IF D = {} THEN 0
       ELSE LET i == MinOf(D) IN IF DVal[a[i]] < DVal[b[i]] THEN -1 ELSE 1
(* signed: records [neg, d] *)
Sg(neg, d) == [neg |-> neg /\ Strip(d) # <<"0">>, d |-> Strip(d)]
CmpS(a, b) ==
  IF a.neg # b.neg THEN (IF a.neg THEN -1 ELSE 1)
  ELSE IF a.neg THEN CmpD(b.d, a.d) ELSE CmpD(a.d, b.d)
TxtS(a) == (IF a.neg THEN <<"-">> ELSE <<>>) \o a.d
Safe == <<"9","0","0","7","1","9","9","2","5","4","7","4","0","9","9","1">>
Zeros(k) == [i \in 1..k |-> "0"]
RECURSIVE Dec(_)
Dec(k) == IF k < 10 THEN <<DigitSeq[k + 1]>> ELSE Dec(k \div 10) \o <<DigitSeq[(k % 10) + 1]>>
RECURSIVE MulGo(_, _, _, _)       (* schoolbook multiplication, last digit first *)
MulGo(d, m, i, carry) ==
  IF i = 0 THEN Dec(carry)
  ELSE LET t == DVal[d[i]] * m + carry IN Append(MulGo(d, m, i - 1, t \div 10), DigitSeq[(t % 10) + 1])
MulSmall(d, m) == Strip(MulGo(d, m, Len(d), 0))
RECURSIVE MulPow(_, _, _)
MulPow(d, m, k) == IF k = 0 THEN Strip(d) ELSE MulPow(MulSmall(d, m), m, k - 1)
(* small natural numbers as TLC integers (at most 9 digits) *)
RECURSIVE NatOf(_)
NatOf(d) == IF d = <<>> THEN 0 ELSE NatOf(Upto(d, Len(d) - 1)) * 10 + DVal[d[Len(d)]]
RECURSIVE HexOf(_)
HexOf(d) == IF d = <<>> THEN 0 ELSE HexOf(Upto(d, Len(d) - 1)) * 16 + HVal[Low(d[Len(d)])]
InBounds(c, x) == /\ (~c.hasMin) \/ CmpS(x, c.min) >= 0
                  /\ (~c.hasMax) \/ CmpS(x, c.max) <= 0

---------------------------------------------------------------------------
(* Plain strings and choices *)
VString(c, x) ==
  CASE c.pattern = ""       -> Yes(x)
    [] c.pattern = "digits" -> IfYes(IsDigits(x), x)
    [] c.pattern = "has-a"  -> IfYes(Has(x, "a"), x)
    [] c.pattern = "hexpair" -> IfYes(Len(x) = 2 /\ All(x, HexLow), x)

VChoice(c, x) ==
  LET M == {i \in 1..Len(c.choices) : IF c.ci THEN LowS(c.choices[i]) = LowS(x) ELSE c.choices[i] = x} IN
  IF M = {} THEN No ELSE Yes(c.choices[MinOf(M)])

(* a decimal number: sign, integer digits, fraction digits, exponent *)
NumParts(x) ==
  LET signed == Len(x) > 0 /\ x[1] \in {"+", "-"}
      body   == IF signed THEN From(x, 2) ELSE x
      E      == {i \in 1..Len(body) : body[i] \in {"e", "E"}}
      mant   == IF E = {} THEN body ELSE Upto(body, MinOf(E) - 1)
      exp    == IF E = {} THEN <<>> ELSE From(body, MinOf(E) + 1)
      exsig  == Len(exp) > 0 /\ exp[1] \in {"+", "-"}
      exd    == IF exsig THEN From(exp, 2) ELSE exp
      P      == {i \in 1..Len(mant) : mant[i] = "."}
      ip     == IF P = {} THEN mant ELSE Upto(mant, MinOf(P) - 1)
      fp     == IF P = {} THEN <<>> ELSE From(mant, MinOf(P) + 1)
  IN [ok   |-> /\ Cardinality(E) <= 1 /\ Cardinality(P) <= 1
               /\ All(ip, Digit) /\ All(fp, Digit) /\ Len(ip) + Len(fp) > 0
               /\ (E # {}) => IsDigits(exd),
      sign |-> IF signed THEN x[1] ELSE "", ip |-> ip, fp |-> fp,
      hasExp |-> E # {}, expNeg |-> exsig /\ exp[1] = "-", exp |-> exd]
NegP(p) == p.sign = "-"
(* equality of the exact values of two decimals without exponents *)
FracStrip(f) == IF All(f, {"0"}) THEN <<>> ELSE Upto(f, MaxOf({i \in 1..Len(f) : f[i] # "0"}))
ZeroP(p) == All(p.ip, {"0"}) /\ All(p.fp, {"0"})
SameDec(p, q) == /\ Strip(<<"0">> \o p.ip) = Strip(<<"0">> \o q.ip)
                 /\ FracStrip(p.fp) = FracStrip(q.fp)
                 /\ NegP(p) = NegP(q)
VChoiceNum(c, x) ==
  LET exact == {i \in 1..Len(c.choices) : c.choices[i] = x}
      p     == NumParts(x)
      plain == {i \in 1..Len(c.choices) : NumParts(c.choices[i]).ok /\ ~NumParts(c.choices[i]).hasExp}
      same  == {i \in plain : SameDec(NumParts(c.choices[i]), p)}
      zero  == {i \in plain : ZeroP(NumParts(c.choices[i])) /\ c.choices[i][1] # "-"}
      negz  == {i \in plain : ZeroP(NumParts(c.choices[i])) /\ c.choices[i][1] = "-"}
  IN IF exact # {} THEN Yes(c.choices[MinOf(exact)])
     ELSE IF ~p.ok THEN No
     ELSE IF p.hasExp THEN Maybe
     ELSE IF same # {} THEN Yes(c.choices[MinOf(same)])
     ELSE IF ZeroP(p) /\ negz = {} /\ zero # {} THEN Yes(c.choices[MinOf(zero)])
     ELSE IF plain # 1..Len(c.choices) THEN Maybe
     ELSE No

---------------------------------------------------------------------------
(* Numbers *)
IntTxt(x) == IF Len(x) > 0 /\ x[1] = "-" THEN From(x, 2) ELSE x
VInteger(c, x) ==
  IF ~IsDigits(IntTxt(x)) THEN No
  ELSE LET z == Sg(x[1] = "-", IntTxt(x)) IN
       IfYes((c.big \/ CmpD(z.d, Safe) <= 0) /\ InBounds(c, z), TxtS(z))

VPort(c, x) ==
  IF ~IsDigits(IntTxt(x)) THEN No
  ELSE LET z == Sg(x[1] = "-", IntTxt(x)) IN
       IfYes(InBounds(c, z) /\ ~(c.noWellKnown /\ ~z.neg /\ z.d # <<"0">> /\ CmpD(z.d, <<"1","0","2","3">>) <= 0), TxtS(z))

VPortRange(c, x0) ==
  LET x == Trim(x0)
      P == At(x, c.sep)
  IN IF Trim(c.sep) # c.sep /\ x0 # x THEN Maybe
     ELSE IF P = {} THEN
       (IF ~c.single THEN No
        ELSE LET r == VPort(c, x) IN IF r.v = "yes" THEN Yes(r.val \o <<"~">> \o r.val) ELSE No)
     ELSE LET i == MinOf(P)
              a == VPort(c, Upto(x, i - 1))
              b == VPort(c, From(x, i + Len(c.sep)))
          IN IF a.v # "yes" \/ b.v # "yes" THEN No
             ELSE IfYes(CmpD(a.val, b.val) <= 0, a.val \o <<"~">> \o b.val)

(* a decimal as digits D scaled by ten to the power E *)
Scaled(p) ==
  LET ex == IF p.hasExp THEN NatOf(p.exp) ELSE 0 IN
  [neg |-> NegP(p) /\ ~ZeroP(p), d |-> Strip(<<"0">> \o p.ip \o p.fp),
   e |-> (IF p.expNeg THEN -ex ELSE ex) - Len(p.fp)]
CmpScaled(a, b) ==
  LET m  == IF a.e < b.e THEN a.e ELSE b.e
      ad == Strip(a.d \o Zeros(a.e - m))
      bd == Strip(b.d \o Zeros(b.e - m))
  IN CmpS([neg |-> a.neg, d |-> ad], [neg |-> b.neg, d |-> bd])
VFloat(c, x) ==
  LET l == LowS(x) p == NumParts(x) IN
  IF l = <<"n","a","n">> THEN (IF c.nan THEN Yes(<<"N","a","N">>) ELSE No)
  ELSE IF l \in {<<"i","n","f","i","n","i","t","y">>, <<"+","i","n","f","i","n","i","t","y">>}
       THEN (IF ~c.inf THEN No ELSE IfYes(~c.hasMax, <<"I","n","f","i","n","i","t","y">>))
  ELSE IF l = <<"-","i","n","f","i","n","i","t","y">>
       THEN (IF ~c.inf THEN No ELSE IfYes(~c.hasMin, <<"-","I","n","f","i","n","i","t","y">>))
  ELSE IF ~p.ok THEN No
  ELSE IF Len(Strip(<<"0">> \o p.ip \o p.fp)) > 15 \/ (p.hasExp /\ Len(p.exp) > 2) THEN Maybe
  ELSE LET z == Scaled(p) IN
       IfYes(/\ (~c.hasMin) \/ CmpScaled(z, Scaled(NumParts(c.minTxt))) >= 0
             /\ (~c.hasMax) \/ CmpScaled(z, Scaled(NumParts(c.maxTxt))) <= 0, x)

---------------------------------------------------------------------------
(* Sizes: the number of bytes is exact *)
Units == <<"b","kb","mb","gb","tb","pb","eb">>
UnitTxt == << <<"b">>, <<"k","b">>, <<"m","b">>, <<"g","b">>, <<"t","b">>, <<"p","b">>, <<"e","b">> >>
IecTxt  == << <<"k","i","b">>, <<"m","i","b">>, <<"g","i","b">>, <<"t","i","b">>, <<"p","i","b">>, <<"e","i","b">> >>
VFileSize(c, x0) ==
  LET x  == Trim(x0)
      L  == {i \in 1..Len(x) : x[i] \in Alpha}
      u  == IF L = {} THEN <<>> ELSE From(x, MinOf(L))
      nm == TrimR(IF L = {} THEN x ELSE Upto(x, MinOf(L) - 1))
      p  == NumParts(nm)
      un == IF u = <<>> THEN LowS(c.unit) ELSE LowS(u)
      si == {i \in 1..7 : UnitTxt[i] = un}
      ie == {i \in 1..6 : IecTxt[i] = un}
      base == IF si # {} /\ ~c.bin THEN 1000 ELSE 1024
      pow  == IF si # {} THEN MinOf(si) - 1 ELSE MinOf(ie)
      raw  == MulPow(<<"0">> \o p.ip \o p.fp, base, pow)
      k    == Len(p.fp)
      exact == Strip(raw) = <<"0">> \/ (Len(raw) > k /\ All(From(raw, Len(raw) - k + 1), {"0"}))
      bytes == IF Strip(raw) = <<"0">> THEN <<"0">> ELSE Upto(raw, Len(raw) - k)
      z    == Sg(p.sign = "-", bytes)
  IN IF ~p.ok THEN No
     ELSE IF un = <<>> \/ (si = {} /\ ie = {}) THEN No
     ELSE IF ~exact THEN No
     ELSE IfYes(/\ c.big \/ CmpD(bytes, Safe) <= 0
                /\ c.neg \/ ~z.neg, TxtS(z))

---------------------------------------------------------------------------
(* Colours *)
H2(a, b) == Dec(HexOf(<<a, b>>))
Comma(xs) == JoinWith(xs, <<",">>)
ColourHex(x) ==
  LET h == From(x, 2) IN
  IF x = <<>> \/ x[1] # "#" \/ ~All(h, Hex) THEN No
  ELSE CASE Len(h) = 3 -> Yes(Comma(<<H2(h[1],h[1]), H2(h[2],h[2]), H2(h[3],h[3]), Dec(255)>>))
         [] Len(h) = 4 -> Yes(Comma(<<H2(h[1],h[1]), H2(h[2],h[2]), H2(h[3],h[3]), H2(h[4],h[4])>>))
         [] Len(h) = 6 -> Yes(Comma(<<H2(h[1],h[2]), H2(h[3],h[4]), H2(h[5],h[6]), Dec(255)>>))
         [] Len(h) = 8 -> Yes(Comma(<<H2(h[1],h[2]), H2(h[3],h[4]), H2(h[5],h[6]), H2(h[7],h[8])>>))
         [] OTHER -> No
(* name ( a , b , c [, d] ) *)
Func(x, names) ==
  LET P == {i \in 1..Len(x) : x[i] = "("} IN
  IF P = {} \/ x[Len(x)] # ")" THEN [ok |-> FALSE, args |-> <<>>]
  ELSE LET nm == LowS(Upto(x, MinOf(P) - 1))
           inner == SubSeq(x, MinOf(P) + 1, Len(x) - 1)
           args == Split(inner, ",")
       IN [ok |-> nm \in names /\ ~Has(inner, "(") /\ ~Has(inner, ")") /\ Len(args) \in {3, 4},
           args |-> [i \in 1..Len(args) |-> Trim(args[i])]]
Unsigned(x) == NumParts(x).ok /\ NumParts(x).sign = "" /\ ~NumParts(x).hasExp
AtMost(x, m) == CmpScaled(Scaled(NumParts(x)), [neg |-> FALSE, d |-> Strip(Dec(m)), e |-> 0]) <= 0
(* alpha, quantised to 255 steps: only the exactly representable anchors are computed *)
AlphaOf(x) == IF x = <<>> \/ (AtMost(x, 1) /\ CmpScaled(Scaled(NumParts(x)), [neg |-> FALSE, d |-> <<"1">>, e |-> 0]) = 0)
              THEN Dec(255) ELSE IF ZeroP(NumParts(x)) THEN Dec(0) ELSE <<"?">>
ColourRgb(x) ==
  LET f == Func(x, {<<"r","g","b">>, <<"r","g","b","a">>}) IN
  IF ~f.ok THEN No
  ELSE IfYes(/\ \A i \in 1..3 : IsDigits(f.args[i]) /\ Len(f.args[i]) <= 3 /\ NatOf(f.args[i]) <= 255
             /\ (Len(f.args) = 4) => Unsigned(f.args[4]) /\ AtMost(f.args[4], 1),
             Comma(<<Strip(f.args[1]), Strip(f.args[2]), Strip(f.args[3]),
                     AlphaOf(IF Len(f.args) = 4 THEN f.args[4] ELSE <<>>)>>))
Percent(x) == x # <<>> /\ x[Len(x)] = "%" /\ Unsigned(Upto(x, Len(x) - 1)) /\ AtMost(Upto(x, Len(x) - 1), 100)
PureHue == << <<"255","0","0">>, <<"255","255","0">>, <<"0","255","0">>, <<"0","255","255">>, <<"0","0","255">>, <<"255","0","255">> >>
ColourHsl(x) ==
  LET f == Func(x, {<<"h","s","l">>, <<"h","s","l","a">>})
      h == f.args[1]
      hb == IF Len(h) > 0 /\ h[1] = "-" THEN From(h, 2) ELSE h
      ss == Upto(f.args[2], Len(f.args[2]) - 1)
      ll == Upto(f.args[3], Len(f.args[3]) - 1)
      is(y, k) == CmpScaled(Scaled(NumParts(y)), [neg |-> FALSE, d |-> Strip(Dec(k)), e |-> 0]) = 0
      al == AlphaOf(IF Len(f.args) = 4 THEN f.args[4] ELSE <<>>)
      whole == IsDigits(hb) /\ Len(hb) <= 6 /\ NatOf(hb) % 60 = 0
      deg == IF h # hb THEN (360 - (NatOf(hb) % 360)) % 360 ELSE NatOf(hb) % 360
  IN IF ~f.ok THEN No
     ELSE IF ~(Unsigned(hb) /\ Percent(f.args[2]) /\ Percent(f.args[3])
               /\ ((Len(f.args) = 4) => Unsigned(f.args[4]) /\ AtMost(f.args[4], 1))) THEN No
     ELSE IF is(ll, 0) THEN Yes(Comma(<<Dec(0), Dec(0), Dec(0), al>>))
     ELSE IF is(ll, 100) THEN Yes(Comma(<<Dec(255), Dec(255), Dec(255), al>>))
     ELSE IF is(ss, 0) /\ is(ll, 20) THEN Yes(Comma(<<Dec(51), Dec(51), Dec(51), al>>))
     ELSE IF is(ss, 100) /\ is(ll, 50) /\ whole
          THEN LET q == (deg \div 60) + 1 IN Yes(Comma(<< <<PureHue[q][1]>>, <<PureHue[q][2]>>, <<PureHue[q][3]>>, al>>))
     ELSE Yes(<<"?">>)
VColor(c, x0) ==
  LET x == Trim(x0)
      on(f) == \E i \in 1..Len(c.formats) : c.formats[i] = f
      R == (IF on("hex") THEN {ColourHex(x)} ELSE {}) \cup (IF on("rgb") THEN {ColourRgb(x)} ELSE {})
           \cup (IF on("hsl") THEN {ColourHsl(x)} ELSE {})
           \cup (IF on("named") THEN {LET M == {i \in 1..Len(c.names) : c.names[i].n = LowS(x)} IN
                                      IF M = {} THEN No ELSE Yes(c.names[MinOf(M)].c)} ELSE {})
      Y == {r \in R : r.v = "yes"}
  IN IF Y = {} THEN No ELSE CHOOSE r \in Y : TRUE

---------------------------------------------------------------------------
(* Identifiers *)
VUuid(c, x) ==
  LET g == Split(x, "-")
      shape == Len(g) = 5 /\ Len(g[1]) = 8 /\ Len(g[2]) = 4 /\ Len(g[3]) = 4 /\ Len(g[4]) = 4 /\ Len(g[5]) = 12
               /\ \A i \in 1..5 : All(g[i], Hex)
      hexs == LowS(g[1] \o g[2] \o g[3] \o g[4] \o g[5])
      ver == HVal[Low(g[3][1])]
      var == Low(g[4][1])
  IN IF ~shape THEN No
     ELSE IF All(hexs, {"0"}) \/ All(hexs, {"f"}) THEN Yes(x)
     ELSE IfYes(/\ IF Len(c.versions) > 0 THEN \E i \in 1..Len(c.versions) : c.versions[i] = ver
                   ELSE c.strict => ver \in 1..8
                /\ c.strict => var \in {"8", "9", "a", "b"}, x)

VSemVer(c, x0) ==
  LET pre  == Len(x0) > 0 /\ x0[1] = "v"
      x    == IF pre THEN From(x0, 2) ELSE x0
      P    == {i \in 1..Len(x) : x[i] = "+"}
      core == IF P = {} THEN x ELSE Upto(x, MinOf(P) - 1)
      meta == IF P = {} THEN <<>> ELSE From(x, MinOf(P) + 1)
      D    == {i \in 1..Len(core) : core[i] = "-"}
      num  == IF D = {} THEN core ELSE Upto(core, MinOf(D) - 1)
      rel  == IF D = {} THEN <<>> ELSE From(core, MinOf(D) + 1)
      ns   == Split(num, ".")
      Ident == Alnum \cup {"-"}
      numeric(y) == IsDigits(y) /\ (Len(y) = 1 \/ y[1] # "0")
      relId(y) == Len(y) > 0 /\ All(y, Ident) /\ (All(y, Digit) => numeric(y))
      metId(y) == Len(y) > 0 /\ All(y, Ident)
  IN IF pre /\ ~c.prefix THEN No
     ELSE IfYes(/\ Len(ns) = 3 /\ \A i \in 1..3 : numeric(ns[i])
                /\ D # {} => LET r == Split(rel, ".") IN \A i \in 1..Len(r) : relId(r[i])
                /\ P # {} => LET m == Split(meta, ".") IN \A i \in 1..Len(m) : metId(m[i])
                /\ c.object => \A i \in 1..3 : CmpD(ns[i], Safe) <= 0, x)

---------------------------------------------------------------------------
(* Addresses *)
Oct(y) == IsDigits(y) /\ Len(y) <= 3 /\ (Len(y) = 1 \/ y[1] # "0") /\ NatOf(y) <= 255
Quad(x) == LET o == Split(x, ".") IN Len(o) = 4 /\ \A i \in 1..4 : Oct(o[i])
Octets(x) == LET o == Split(x, ".") IN [i \in 1..4 |-> NatOf(o[i])]
Allowed4(c, o) ==
  /\ c.private \/ ~(o[1] = 10 \/ (o[1] = 172 /\ o[2] \in 16..31) \/ (o[1] = 192 /\ o[2] = 168))
  /\ c.loopback \/ o[1] # 127
  /\ c.linkLocal \/ ~(o[1] = 169 /\ o[2] = 254)
  /\ c.multicast \/ o[1] \notin 224..239
  /\ c.broadcast \/ o # <<255, 255, 255, 255>>
  /\ c.zero \/ o # <<0, 0, 0, 0>>
VIpv4(c, x) == IF ~Quad(x) THEN No ELSE IfYes(Allowed4(c, Octets(x)), x)

(* eight 16-bit groups, or <<>> *)
Hextets(x) == IF x = <<>> THEN <<>> ELSE Split(x, ":")
GoodHex(g) == Len(g) \in 1..4 /\ All(g, Hex)
Groups(x0) ==
  LET C    == {i \in 1..Len(x0) : x0[i] = ":"}
      last == IF C = {} THEN <<>> ELSE From(x0, MaxOf(C) + 1)
      emb  == C # {} /\ Quad(last)
      o    == Octets(last)
      HexDigits(k) == LET RECURSIVE W(_)
                          W(j) == IF j < 16 THEN <<HexSeq[j + 1]>> ELSE W(j \div 16) \o <<HexSeq[(j % 16) + 1]>>
                      IN W(k)
      x    == IF emb THEN Upto(x0, MaxOf(C)) \o HexDigits(o[1] * 256 + o[2]) \o <<":">> \o HexDigits(o[3] * 256 + o[4]) ELSE x0
      P    == At(x, <<":", ":">>)
  IN IF P = {} THEN LET g == Split(x, ":") IN
        IF Len(g) = 8 /\ \A i \in 1..8 : GoodHex(g[i]) THEN [i \in 1..8 |-> HexOf(g[i])] ELSE <<>>
     ELSE IF Cardinality(P) > 1 THEN <<>>
     ELSE LET i == MinOf(P)
              a == Hextets(Upto(x, i - 1))
              b == Hextets(From(x, i + 2))
          IN IF Len(a) + Len(b) >= 8 \/ ~(\A k \in 1..Len(a) : GoodHex(a[k])) \/ ~(\A k \in 1..Len(b) : GoodHex(b[k])) THEN <<>>
             ELSE [k \in 1..8 |-> IF k <= Len(a) THEN HexOf(a[k])
                                  ELSE IF k > 8 - Len(b) THEN HexOf(b[k - (8 - Len(b))]) ELSE 0]
HexTxt(k) == LET RECURSIVE W(_)
                 W(j) == IF j < 16 THEN <<HexSeq[j + 1]>> ELSE W(j \div 16) \o <<HexSeq[(j % 16) + 1]>>
             IN W(k)
(* RFC 5952: lower case, the leftmost longest run of two or more zero groups compressed *)
Canon6(g) ==
  LET Runs == {r \in (1..8) \X (2..8) : r[1] + r[2] - 1 <= 8 /\ \A k \in r[1]..(r[1] + r[2] - 1) : g[k] = 0}
      best == CHOOSE r \in Runs : \A q \in Runs : r[2] > q[2] \/ (r[2] = q[2] /\ r[1] <= q[1])
      txt(a, b) == JoinWith([k \in 1..(b - a + 1) |-> HexTxt(g[a + k - 1])], <<":">>)
  IN IF Runs = {} THEN txt(1, 8)
     ELSE txt(1, best[1] - 1) \o <<":", ":">> \o txt(best[1] + best[2], 8)
Allowed6(c, g) ==
  /\ c.zero \/ \E k \in 1..8 : g[k] # 0
  /\ c.loopback \/ g # <<0, 0, 0, 0, 0, 0, 0, 1>>
  /\ c.linkLocal \/ (g[1] \div 64) # 1018          \* fe80::/10
  /\ c.unique \/ (g[1] \div 512) # 126             \* fc00::/7
  /\ c.multicast \/ (g[1] \div 256) # 255          \* ff00::/8
VIpv6(c, x) ==
  LET g == Groups(x) IN
  IF g = <<>> THEN No ELSE IfYes(Allowed6(c, g), Canon6(g))
Mapped(g) == (\A k \in 1..5 : g[k] = 0) /\ g[6] = 65535
MapOct(g) == <<g[7] \div 256, g[7] % 256, g[8] \div 256, g[8] % 256>>
VIp(c, x) ==
  IF c.version = 4 THEN VIpv4(c.v4, x)
  ELSE IF c.version = 6 THEN VIpv6(c.v6, x)
  ELSE IF Quad(x) THEN VIpv4(c.v4, x)
  ELSE LET g == Groups(x) IN
       IF g = <<>> THEN No
       ELSE IfYes(Allowed6(c.v6, g) /\ (Mapped(g) => Allowed4(c.v4, MapOct(g))), Canon6(g))
VCidr(c, x) ==
  LET P == {i \in 1..Len(x) : x[i] = "/"} IN
  IF P = {} THEN No
  ELSE LET a == Upto(x, MaxOf(P) - 1)
           p == From(x, MaxOf(P) + 1)
           r == VIp(c, a)
           top == IF c.version # 6 /\ Quad(a) THEN 32 ELSE 128
       IN IF r.v # "yes" \/ ~IsDigits(p) \/ Len(p) > 3 \/ (Len(p) > 1 /\ p[1] = "0") THEN No
          ELSE IfYes(NatOf(p) <= top /\ (c.minP >= 0 => NatOf(p) >= c.minP) /\ (c.maxP >= 0 => NatOf(p) <= c.maxP),
                     r.val \o <<"/">> \o p)

LabelOK(l, extra) == Len(l) \in 1..63 /\ All(l, Alnum \cup {"-"} \cup extra) /\ l[1] # "-" /\ l[Len(l)] # "-"
Localhost == <<"l","o","c","a","l","h","o","s","t">>
VHostname(c, x) ==
  LET wild == Starts(x, <<"*", ".">>)
      rest == IF wild THEN From(x, 3) ELSE x
      ls   == Split(rest, ".")
      extra == IF c.underscore THEN {"_"} ELSE {}
  IN IF wild /\ ~c.wildcard THEN No
     ELSE IF wild /\ \A i \in 1..Len(ls) : ls[i] # <<>> /\ All(ls[i], Digit) THEN Maybe
     ELSE IfYes(/\ Len(x) <= c.max
                /\ \A i \in 1..Len(ls) : LabelOK(ls[i], extra)
                /\ c.localhost \/ LowS(rest) # Localhost
                /\ ~(Len(ls) >= 2 /\ \A i \in 1..Len(ls) : All(ls[i], Digit)), x)

VDomain(c, x) ==
  LET ls == Split(x, ".") IN
  IfYes(/\ Len(x) <= c.max
        /\ \A i \in 1..Len(ls) : LabelOK(ls[i], {})
        /\ Len(ls) >= c.minLabels
        /\ c.sub \/ Len(ls) <= 2
        /\ ~(Len(ls) >= 2 /\ \A i \in 1..Len(ls) : All(ls[i], Digit))
        /\ (Len(c.tlds) > 0) => \E i \in 1..Len(c.tlds) : LowS(c.tlds[i]) = LowS(ls[Len(ls)]),
        IF c.lower THEN LowS(x) ELSE x)

Pad2(o) == IF Len(o) = 1 THEN <<"0">> \o o ELSE o
VMac(c, x) ==
  LET long(sep) == LET g == Split(x, sep) IN
        IF Len(g) = 6 /\ \A i \in 1..6 : Len(g[i]) \in 1..2 /\ All(g[i], Hex) THEN [i \in 1..6 |-> Pad2(g[i])] ELSE <<>>
      dots == LET g == Split(x, ".") IN
        IF Len(g) = 3 /\ \A i \in 1..3 : Len(g[i]) = 4 /\ All(g[i], Hex)
        THEN <<Upto(g[1],2), From(g[1],3), Upto(g[2],2), From(g[2],3), Upto(g[3],2), From(g[3],3)>> ELSE <<>>
      none == IF Len(x) = 12 /\ All(x, Hex) THEN [i \in 1..6 |-> SubSeq(x, 2*i - 1, 2*i)] ELSE <<>>
      is(k) == c.sep \in {k, "any"}
      o == IF is(":") /\ long(":") # <<>> THEN long(":") ELSE IF is("-") /\ long("-") # <<>> THEN long("-")
           ELSE IF is(".") /\ dots # <<>> THEN dots ELSE IF is("none") /\ none # <<>> THEN none ELSE <<>>
      inSep == IF is(":") /\ long(":") # <<>> THEN ":" ELSE IF is("-") /\ long("-") # <<>> THEN "-"
           ELSE IF is(".") /\ dots # <<>> THEN "." ELSE "none"
      out == IF c.out = "" THEN inSep ELSE c.out
      cased == [i \in 1..6 |-> IF c.case = "upper" THEN UpS(o[i]) ELSE IF c.case = "lower" THEN LowS(o[i]) ELSE o[i]]
  IN IF o = <<>> THEN No
     ELSE Yes(IF out = "." THEN JoinWith(<<cased[1] \o cased[2], cased[3] \o cased[4], cased[5] \o cased[6]>>, <<".">>)
              ELSE IF out = "none" THEN JoinWith(cased, <<>>) ELSE JoinWith(cased, <<out>>))

---------------------------------------------------------------------------
(* Mail addresses *)
Atext == Alnum \cup {"_", "+", "-"}
DomainPart(d) == LET ls == Split(d, ".") IN
  /\ Len(ls) >= 2 /\ \A i \in 1..Len(ls) : LabelOK(ls[i], {})
  /\ ~(Len(ls) = 4 /\ \A i \in 1..4 : All(ls[i], Digit))
(* one addr-spec *)
Addr(c, a) ==
  LET quoted == Len(a) > 0 /\ a[1] = "\""
      Q  == {i \in 2..Len(a) : a[i] = "\""}
      A  == {i \in 1..Len(a) : a[i] = "@"}
      at == MaxOf(A)
      local == Upto(a, at - 1)
      dom == From(a, at + 1)
      ls == Split(local, ".")
      okLocal == IF quoted THEN Len(local) >= 2 /\ local[Len(local)] = "\""
                 ELSE \A i \in 1..Len(ls) : ls[i] # <<>> /\ All(ls[i], Atext)
      value == local \o <<"@">> \o (IF c.lower THEN LowS(dom) ELSE dom)
  IN IF A = {} THEN No
     ELSE IF Has(a, "\\") \/ Cardinality(Q) > 1 \/ (quoted /\ local = <<"\"", "\"">>) THEN Maybe
     ELSE IfYes(/\ okLocal /\ Len(local) <= 64 /\ Len(a) <= 254 /\ DomainPart(dom)
                /\ (Len(c.domains) > 0) => \E i \in 1..Len(c.domains) : LowS(c.domains[i]) = LowS(dom), value)
OneMail(c, x0) ==
  LET x == Trim(x0)
      B == {i \in 1..Len(x) : x[i] = "<"}
      plain == x # <<>> /\ x[Len(x)] # ">" /\ B = {}
  IN IF plain THEN Addr(c, x)
     ELSE IF ~c.display THEN (IF Has(x, "\"") THEN Maybe ELSE No)
     ELSE IF x = <<>> THEN No
     ELSE IF Has(x, "\"") \/ Cardinality(B) # 1 \/ Count(x, ">") # 1 THEN Maybe
     ELSE IF x[Len(x)] # ">" \/ Trim(Upto(x, MinOf(B) - 1)) = <<>> THEN (IF x[1] = "<" THEN Maybe ELSE No)
     ELSE Addr(c, Trim(SubSeq(x, MinOf(B) + 1, Len(x) - 1)))
(* commas outside quotes and angle brackets separate addresses *)
RECURSIVE MailParts(_, _, _, _)
MailParts(x, cur, q, b) ==
  IF x = <<>> THEN <<cur>>
  ELSE LET h == x[1] t == Tail(x) IN
       IF h = "," /\ ~q /\ ~b THEN <<cur>> \o MailParts(t, <<>>, FALSE, FALSE)
       ELSE MailParts(t, Append(cur, h),
                      IF h = "\"" /\ ~b THEN (IF q THEN FALSE ELSE Trim(cur) = <<>>) ELSE q,
                      IF q THEN b ELSE IF h = "<" THEN TRUE ELSE IF h = ">" THEN FALSE ELSE b)
VEmail(c, x) ==
  IF ~c.multi THEN OneMail(c, x)
  ELSE LET ps == MailParts(x, <<>>, FALSE, FALSE)
           rs == [i \in 1..Len(ps) |-> OneMail(c, ps[i])]
       IN IF \E i \in 1..Len(rs) : rs[i].v = "no" THEN No
          ELSE IF \E i \in 1..Len(rs) : rs[i].v = "any" THEN Maybe
          ELSE Yes(JoinWith([i \in 1..Len(rs) |-> rs[i].val], <<"\n">>))

---------------------------------------------------------------------------
(* host:port *)
(* text that other tools would read as a non-standard IPv4 address: one    *)
(* hexadecimal or octal number of 32 bits, or two to four numbers with a     *)
(* hexadecimal or octal one among them, all within the range of their place *)
IsHexNum(l) == Len(l) > 2 /\ l[1] = "0" /\ Low(l[2]) = "x" /\ All(From(l, 3), Hex)
IsOctNum(l) == Len(l) > 1 /\ l[1] = "0" /\ All(l, Digit \ {"8", "9"})
RECURSIVE Significant(_)
Significant(l) == IF Len(l) > 1 /\ l[1] = "0" THEN Significant(Tail(l)) ELSE l
HexVal(d) == CHOOSE k \in 0..15 : <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>[k + 1] = Low(d)
Capped(l, base) == FoldLeft(LAMBDA acc, d : IF acc > 20000000 THEN acc ELSE acc * base + HexVal(d), 0, l)
NumVal(l) == IF IsHexNum(l) THEN Capped(Significant(From(l, 3)), 16) ELSE IF IsOctNum(l) THEN Capped(Significant(l), 8) ELSE Capped(l, 10)
AltQuad(h) ==
  LET l == Split(h, ".") np == Len(l) sh == Significant(h) IN
  IF np = 1 THEN (IsHexNum(h) /\ Len(Significant(From(h, 3))) <= 8)
                 \/ (IsOctNum(h) /\ (Len(sh) <= 10 \/ (Len(sh) = 11 /\ HexVal(sh[1]) <= 3)))
  ELSE /\ np <= 4
       /\ \A i \in 1..np : IsHexNum(l[i]) \/ (l[i] # <<>> /\ All(l[i], Digit) /\ (Len(l[i]) > 1 /\ l[i][1] = "0" => IsOctNum(l[i])))
       /\ \E i \in 1..np : IsHexNum(l[i]) \/ IsOctNum(l[i])
       /\ \A i \in 1..(np - 1) : NumVal(l[i]) <= 255
       /\ NumVal(l[np]) < (CASE np = 2 -> 16777216 [] np = 3 -> 65536 [] OTHER -> 256)
VHost(c, h) ==
  LET col == Count(h, ":") IN
  CASE c.hostType = "hostname" ->
         IF Quad(h) \/ AltQuad(h) THEN No ELSE VHostname(c.hn, h)
    [] c.hostType = "ip" -> VIp(c.ip, h)
    [] OTHER ->
         IF Quad(h) \/ col >= 2 THEN VIp(c.ip, h)
         ELSE IF AltQuad(h) THEN No ELSE VHostname(c.hn, h)
VSocket(c, x0) ==
  LET x    == Trim(x0)
      omit == c.hasDefault /\ ~c.require
      ans(h, p) == Yes(h \o <<"~">> \o p)
      P    == At(x, c.sep)
      B    == {i \in 1..Len(x) : x[i] = "]"}
  IN IF c.sep = <<":">> /\ x # <<>> /\ x[1] = "[" THEN
       (IF B = {} THEN No
        ELSE LET h == SubSeq(x, 2, MinOf(B) - 1)
                 r == From(x, MinOf(B) + 1)
                 hv == IF Groups(h) = <<>> \/ c.hostType = "hostname" THEN No ELSE VHost(c, h)
                 pv == VPort(c.port, From(r, 2))
             IN IF hv.v # "yes" THEN No
                ELSE IF r = <<>> THEN (IF omit THEN ans(hv.val, c.default) ELSE No)
                ELSE IF Trim(r) # r \/ Has(r, " ") THEN Maybe
                ELSE IF r[1] # ":" THEN No
                ELSE IF pv.v = "yes" THEN ans(hv.val, pv.val) ELSE No)
     ELSE IF c.sep = <<":">> /\ Count(x, ":") >= 2 THEN
       (IF Groups(x) = <<>> THEN No
        ELSE IF c.hostType = "hostname" THEN No
        ELSE LET hv == VHost(c, x) IN IF hv.v = "yes" /\ omit THEN ans(hv.val, c.default) ELSE No)
     ELSE IF x0 # x THEN Maybe
     ELSE IF P = {} THEN
       (LET hv == VHost(c, x) IN IF ~omit THEN No ELSE IF hv.v = "yes" THEN ans(hv.val, c.default) ELSE hv)
     ELSE
       LET cand == {i \in P : VHost(c, Trim(Upto(x, i - 1))).v # "no" /\ VPort(c.port, Trim(From(x, i + Len(c.sep)))).v = "yes"}
           i  == MaxOf(cand)
           hv == VHost(c, Trim(Upto(x, i - 1)))
           pv == VPort(c.port, Trim(From(x, i + Len(c.sep))))
       IN IF cand # {} THEN (IF hv.v = "any" THEN Maybe ELSE ans(hv.val, pv.val))
          ELSE IF omit /\ VHost(c, x).v # "no" THEN Maybe
          ELSE No

---------------------------------------------------------------------------
(* Schedules *)
Fields(x) ==
  LET RECURSIVE Go(_, _)
      Go(y, cur) == IF y = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                    ELSE IF y[1] \in Blank THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Go(Tail(y), <<>>)
                    ELSE Go(Tail(y), Append(cur, y[1]))
  IN Go(x, <<>>)
Months == << <<"J","A","N">>, <<"F","E","B">>, <<"M","A","R">>, <<"A","P","R">>, <<"M","A","Y">>, <<"J","U","N">>,
             <<"J","U","L">>, <<"A","U","G">>, <<"S","E","P">>, <<"O","C","T">>, <<"N","O","V">>, <<"D","E","C">> >>
Days   == << <<"S","U","N">>, <<"M","O","N">>, <<"T","U","E">>, <<"W","E","D">>, <<"T","H","U">>, <<"F","R","I">>, <<"S","A","T">> >>
CRange == [second |-> <<0, 59>>, minute |-> <<0, 59>>, hour |-> <<0, 23>>, dom |-> <<1, 31>>, month |-> <<1, 12>>, dow |-> <<0, 7>>, year |-> <<1970, 2099>>]
(* the number a field element denotes, or -1 *)
CVal(k, y) ==
  LET M == IF k = "month" THEN {i \in 1..12 : Months[i] = UpS(y)} ELSE IF k = "dow" THEN {i \in 1..7 : Days[i] = UpS(y)} ELSE {} IN
  IF M # {} THEN (IF k = "month" THEN MinOf(M) ELSE MinOf(M) - 1)
  ELSE IF ~IsDigits(y) \/ Len(Strip(y)) > 5 THEN -1
  ELSE IF NatOf(Strip(y)) \in CRange[k][1]..CRange[k][2] THEN NatOf(Strip(y)) ELSE -1
(* Sunday closes a week when it ends a range *)
CEnd(k, a, b) == IF k = "dow" /\ CVal(k, a) # -1 /\ UpS(a) # Days[1] /\ (UpS(b) = Days[1] \/ b = <<"0">>) THEN 7 ELSE CVal(k, b)
CPart(k, y) ==
  LET st == Split(y, "/")
      base == st[1]
      r == Split(base, "-")
  IN /\ Len(st) <= 2
     /\ (Len(st) = 2) => IsDigits(st[2]) /\ ~All(st[2], {"0"})
     /\ \/ base = <<"*">>
        \/ Len(r) = 1 /\ CVal(k, base) # -1
        \/ Len(r) = 2 /\ CVal(k, r[1]) # -1 /\ CEnd(k, r[1], r[2]) # -1 /\ CVal(k, r[1]) <= CEnd(k, r[1], r[2])
CQuartz(k, y) ==
  LET u == UpS(y) m == Len(u) IN
  \/ u = <<"?">> /\ k \in {"dom", "dow"}
  \/ k = "dom" /\ (u \in {<<"L">>, <<"L", "W">>} \/ (m \in {2, 3} /\ u[m] = "W" /\ IsDigits(Upto(u, m - 1)) /\ CVal(k, Upto(u, m - 1)) # -1))
  \/ k = "dow" /\ (u = <<"L">>
       \/ (m \in {2, 4} /\ u[m] = "L" /\ (Upto(u, m - 1) \in Range(Days) \/ (m = 2 /\ u[1] \in Digit \ {"0", "8", "9"})))
       \/ (m \in {3, 5} /\ u[m - 1] = "#" /\ u[m] \in {"1","2","3","4","5"}
           /\ (Upto(u, m - 2) \in Range(Days) \/ (m = 3 /\ u[1] \in Digit \ {"0", "8", "9"}))))
CField(c, k, y) ==
  LET ps == Split(y, ",") IN
  (\A i \in 1..Len(ps) : ps[i] # <<>> /\ CPart(k, ps[i])) \/ (c.quartz /\ CQuartz(k, y))
VCron(c, x) ==
  LET f == Fields(x)
      ks == (IF c.seconds THEN <<"second">> ELSE <<>>) \o <<"minute", "hour", "dom", "month", "dow">> \o (IF c.years THEN <<"year">> ELSE <<>>)
      o == IF c.seconds THEN 1 ELSE 0
  IN IfYes(/\ Len(f) = Len(ks)
           /\ \A i \in 1..Len(ks) : CField(c, ks[i], f[i])
           /\ ~(c.quartz /\ f[3 + o] = <<"?">> /\ f[5 + o] = <<"?">>), JoinWith(f, <<" ">>))

---------------------------------------------------------------------------
(* JSON, over ASCII text *)
JBlank == {" ", "\t", "\n", "\r"}
RECURSIVE JWs(_, _)
JWs(x, i) == IF i <= Len(x) /\ x[i] \in JBlank THEN JWs(x, i + 1) ELSE i
(* each operator returns the position after the phrase starting at i, or 0 *)
RECURSIVE JStr(_, _)
JStr(x, i) ==
  IF i > Len(x) THEN 0
  ELSE IF x[i] = "\"" THEN i + 1
  ELSE IF x[i] \in {"\n", "\t", "\r"} THEN 0
  ELSE IF x[i] # "\\" THEN JStr(x, i + 1)
  ELSE IF i = Len(x) THEN 0
  ELSE IF x[i + 1] \in {"\"", "\\", "/", "b", "f", "n", "r", "t"} THEN JStr(x, i + 2)
  ELSE IF x[i + 1] = "u" /\ i + 5 <= Len(x) /\ All(SubSeq(x, i + 2, i + 5), Hex) THEN JStr(x, i + 6)
  ELSE 0
RECURSIVE JDig(_, _)
JDig(x, i) == IF i <= Len(x) /\ x[i] \in Digit THEN JDig(x, i + 1) ELSE i
JNum(x, i) ==
  LET a == IF i <= Len(x) /\ x[i] = "-" THEN i + 1 ELSE i
      b == IF a <= Len(x) /\ x[a] = "0" THEN a + 1 ELSE JDig(x, a)
      c == IF b <= Len(x) /\ x[b] = "." THEN (IF JDig(x, b + 1) = b + 1 THEN 0 ELSE JDig(x, b + 1)) ELSE b
      d == IF c > 0 /\ c <= Len(x) /\ x[c] \in {"e", "E"}
           THEN (LET g == IF c + 1 <= Len(x) /\ x[c + 1] \in {"+", "-"} THEN c + 2 ELSE c + 1
                 IN IF JDig(x, g) = g THEN 0 ELSE JDig(x, g)) ELSE c
  IN IF b = a THEN 0 ELSE d
Word(x, i, w) == IF i + Len(w) - 1 <= Len(x) /\ SubSeq(x, i, i + Len(w) - 1) = w THEN i + Len(w) ELSE 0
RECURSIVE JVal(_, _)
RECURSIVE JItems(_, _)
RECURSIVE JMembers(_, _)
JVal(x, i) ==
  IF i > Len(x) THEN 0
  ELSE CASE x[i] = "\"" -> JStr(x, i + 1)
         [] x[i] = "[" -> (LET j == JWs(x, i + 1) IN IF j <= Len(x) /\ x[j] = "]" THEN j + 1 ELSE JItems(x, j))
         [] x[i] = "{" -> (LET j == JWs(x, i + 1) IN IF j <= Len(x) /\ x[j] = "}" THEN j + 1 ELSE JMembers(x, j))
         [] x[i] = "t" -> Word(x, i, <<"t","r","u","e">>)
         [] x[i] = "f" -> Word(x, i, <<"f","a","l","s","e">>)
         [] x[i] = "n" -> Word(x, i, <<"n","u","l","l">>)
         [] OTHER -> JNum(x, i)
JItems(x, i) ==
  LET j == JVal(x, i) IN
  IF j = 0 THEN 0
  ELSE LET k == JWs(x, j) IN
       IF k > Len(x) THEN 0 ELSE IF x[k] = "]" THEN k + 1 ELSE IF x[k] = "," THEN JItems(x, JWs(x, k + 1)) ELSE 0
JMembers(x, i) ==
  IF i > Len(x) THEN 0 ELSE IF x[i] # "\"" THEN 0
  ELSE LET j == JStr(x, i + 1) IN
       IF j = 0 THEN 0
       ELSE LET k == JWs(x, j) IN
            IF k > Len(x) THEN 0 ELSE IF x[k] # ":" THEN 0
            ELSE LET v == JVal(x, JWs(x, k + 1)) IN
                 IF v = 0 THEN 0
                 ELSE LET m == JWs(x, v) IN
                      IF m > Len(x) THEN 0 ELSE IF x[m] = "}" THEN m + 1 ELSE IF x[m] = "," THEN JMembers(x, JWs(x, m + 1)) ELSE 0
JKind(ch) == CASE ch = "\"" -> "string" [] ch = "[" -> "array" [] ch = "{" -> "object"
               [] ch \in {"t", "f"} -> "boolean" [] ch = "n" -> "null" [] OTHER -> "number"
VJson(c, x) ==
  LET i == JWs(x, 1) j == JVal(x, i) IN
  IF j = 0 THEN No ELSE IF JWs(x, j) # Len(x) + 1 THEN No
  ELSE IF \E k \in 1..(Len(x) - 3) : /\ x[k] \in {"e", "E"}
            /\ \/ All(SubSeq(x, k + 1, k + 3), Digit)
               \/ (k + 4 <= Len(x) /\ All(SubSeq(x, k + 2, k + 4), Digit))
       THEN Maybe        \* perhaps beyond the range of a number
  ELSE IfYes(c.root = "" \/ c.root = JKind(x[i]), x)

---------------------------------------------------------------------------
(* URLs: scheme ":" rest; the special schemes need a host *)
SchemeOK(y) == y # <<>> /\ y[1] \in Alpha /\ All(y, Alnum \cup {"+", "-", "."})
Special == {<<"h","t","t","p">>, <<"h","t","t","p","s">>, <<"f","t","p">>, <<"w","s">>, <<"w","s","s">>}
DefPort == [k \in Special |-> CASE k = <<"h","t","t","p">> -> Dec(80) [] k = <<"h","t","t","p","s">> -> Dec(443)
             [] k = <<"f","t","p">> -> Dec(21) [] k = <<"w","s">> -> Dec(80) [] OTHER -> Dec(443)]
VUrl(c, x) ==
  LET P == {i \in 1..Len(x) : x[i] = ":"}
      sch == LowS(Upto(x, MinOf(P) - 1))
      rest == From(x, MinOf(P) + 1)
      N == {i \in 1..Len(rest) : rest[i] # "/"}
      noSlash == IF N = {} THEN <<>> ELSE From(rest, MinOf(N))
      E == {i \in 1..Len(noSlash) : noSlash[i] \in {"/", "?", "#"}}
      auth == IF E = {} THEN noSlash ELSE Upto(noSlash, MinOf(E) - 1)
      C == {i \in 1..Len(auth) : auth[i] = ":"}
      host == IF C = {} THEN auth ELSE Upto(auth, MinOf(C) - 1)
      port == IF C = {} THEN <<>> ELSE From(auth, MinOf(C) + 1)
      allowed == Len(c.protocols) = 0 \/ \E i \in 1..Len(c.protocols) : LowS(c.protocols[i]) = sch \o <<":">>
  IN IF Trim(x) # x THEN Maybe
     ELSE IF P = {} THEN No
     ELSE IF ~SchemeOK(sch) THEN No
     ELSE IF ~allowed THEN No
     ELSE IF sch \notin Special THEN (IF Starts(rest, <<"/", "/">>) THEN Maybe ELSE Yes(sch))
     ELSE IF Has(auth, "@") THEN Maybe
     ELSE IF host = <<>> THEN No
     ELSE IF ~All(host, Lower \cup {"."}) \/ host[Len(host)] = "." \/ \E i \in 1..Len(Split(host, ".")) : Split(host, ".")[i] = <<>> THEN Maybe
     ELSE IfYes(port = <<>> \/ (All(port, Digit) /\ Len(Strip(port)) <= 5 /\ NatOf(Strip(port)) <= 65535), sch)

---------------------------------------------------------------------------
(* Combinators of value parsers *)
RECURSIVE Verdict(_, _)
VKeyValue(c, x) ==
  LET P == At(x, c.sep)
      i == IF c.split = "last" THEN MaxOf(P) ELSE MinOf(P)
      k == Upto(x, i - 1)
      w == From(x, i + Len(c.sep))
      kv == Verdict(c.key, k)
      wv == Verdict(c.value, w)
  IN IF P = {} THEN No
     ELSE IF (k = <<>> /\ ~c.emptyKey) \/ (w = <<>> /\ ~c.emptyValue) THEN No
     ELSE IF kv.v = "no" \/ wv.v = "no" THEN No
     ELSE IF kv.v = "any" \/ wv.v = "any" THEN Maybe
     ELSE Yes(kv.val \o <<"~">> \o wv.val)
VFirst(c, x) ==
  LET R == [i \in 1..Len(c.of) |-> Verdict(c.of[i], x)]
      A == {i \in 1..Len(R) : R[i].v # "no"}
  IN IF A = {} THEN No ELSE IF R[MinOf(A)].v = "any" THEN Maybe ELSE Yes(<<Dec(MinOf(A))[1], "~">> \o R[MinOf(A)].val)
VMapped(c, x) ==      \* biject/transform over a choice: the value is the image of the key
  LET r == VChoice(c, x) IN
  IF r.v # "yes" THEN r ELSE Yes(c.images[CHOOSE i \in 1..Len(c.choices) : c.choices[i] = r.val])

Verdict(c, x) ==
  CASE c.k = "string" -> VString(c, x)
    [] c.k = "choice" -> VChoice(c, x)
    [] c.k = "choiceNum" -> VChoiceNum(c, x)
    [] c.k = "biject" -> VMapped(c, x)
    [] c.k = "integer" -> VInteger(c, x)
    [] c.k = "float" -> VFloat(c, x)
    [] c.k = "fileSize" -> VFileSize(c, x)
    [] c.k = "color" -> VColor(c, x)
    [] c.k = "uuid" -> VUuid(c, x)
    [] c.k = "semVer" -> VSemVer(c, x)
    [] c.k = "port" -> VPort(c, x)
    [] c.k = "portRange" -> VPortRange(c, x)
    [] c.k = "ipv4" -> VIpv4(c, x)
    [] c.k = "ipv6" -> VIpv6(c, x)
    [] c.k = "ip" -> VIp(c, x)
    [] c.k = "cidr" -> VCidr(c, x)
    [] c.k = "hostname" -> VHostname(c, x)
    [] c.k = "domain" -> VDomain(c, x)
    [] c.k = "mac" -> VMac(c, x)
    [] c.k = "email" -> VEmail(c, x)
    [] c.k = "socket" -> VSocket(c, x)
    [] c.k = "cron" -> VCron(c, x)
    [] c.k = "json" -> VJson(c, x)
    [] c.k = "url" -> VUrl(c, x)
    [] c.k = "keyValue" -> VKeyValue(c, x)
    [] c.k = "firstOf" -> VFirst(c, x)

---------------------------------------------------------------------------
Init == /\ e \in 1..Len(Cases)
        /\ s \in Range(Cases[e].inputs)
        /\ n = 0
Read == /\ n < Cases[e].max
        /\ \E i \in 1..Len(Cases[e].alpha) : s' = s \o Cases[e].alpha[i]
        /\ n' = n + 1
        /\ e' = e
Next == Read
Spec == Init /\ [][Next]_vars
View == <<e, s>>

(* every state is decided, and the decision is printed for the replay *)
Judged == LET r == Verdict(Cases[e].cfg, s) IN
  /\ r.v \in {"yes", "no", "any"}
  /\ PrintT("@@" \o ToJson([e |-> e, s |-> s, v |-> r.v, val |-> r.val]))

(* On the model: what a canonicalising language returns is again a word of the language and denotes itself. *)
Canonical == {"integer", "port", "ipv4", "ipv6", "ip", "cidr", "hostname", "uuid", "semVer", "cron", "choice", "choiceNum"}
Stable == LET c == Cases[e].cfg r == Verdict(c, s) IN
  (c.k \in Canonical /\ r.v = "yes") => Verdict(c, r.val) = r
=============================================================================
