--------------------------------- MODULE New --------------------------------
(***************************************************************************)
(* What New makes of a type and an argument (P18): <<"ok", value>>, <<"no">> *)
(* when it must be refused, or <<"?">> when only the type of the outcome is  *)
(* known.                                                                  *)
(*                                                                         *)
(* A numeral is valid when it is in the grammar and in range. E.nums has   *)
(* the number for the canonical form of a numeral of an integer,           *)
(* E.reals that of a decimal fraction (correctly rounded), E.round the     *)
(* nearest float of an integer, and E.trunc the integral part of a float,  *)
(* for numbers whose representation doesn't tell.                          *)
(***************************************************************************)
EXTENDS Types
B == INSTANCE Binary

Ok(v) == <<"ok", v>>
No == <<"no">>
Unknown == <<"?">>

Has1(tab, k) == \E i \in DOMAIN tab : tab[i][1] = k
Get1(tab, k) == tab[CHOOSE i \in DOMAIN tab : tab[i][1] = k][2]

-----------------------------------------------------------------------------
\* Numerals

Digit(c) == c \in 48..57
DigitV(c) == IF Digit(c) THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
RECURSIVE NoZeros(_)
NoZeros(ds) == IF Len(ds) > 1 /\ ds[1] = 0 THEN NoZeros(Tail(ds)) ELSE ds
\* the largest integer and the magnitude of the smallest
MaxDigits(radix) ==
  CASE radix = 2 -> [i \in 1..63 |-> 1]
    [] radix = 8 -> [i \in 1..21 |-> 7]
    [] radix = 10 -> <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>
    [] radix = 16 -> <<7>> \o [i \in 1..15 |-> 15]
MinDigits(radix) ==
  CASE radix = 2 -> <<1>> \o [i \in 1..63 |-> 0]
    [] radix = 8 -> <<1>> \o [i \in 1..21 |-> 0]
    [] radix = 10 -> <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8>>
    [] radix = 16 -> <<8>> \o [i \in 1..15 |-> 0]
NotMore(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ BytesCmp(a, b) <= 0)
\* <<is negative, digits>> or <<>>
IntNumeral(s, radix) ==
  LET sign == s # <<>> /\ s[1] \in {43, 45}
      neg == sign /\ s[1] = 45
      ds == IF sign THEN Tail(s) ELSE s
      vs == NoZeros([i \in 1..Len(ds) |-> DigitV(ds[i])])
  IN  IF ds = <<>> \/ \E i \in 1..Len(ds) : DigitV(ds[i]) >= radix THEN <<>>
      ELSE IF ~NotMore(vs, IF neg THEN MinDigits(radix) ELSE MaxDigits(radix)) THEN <<>>
      ELSE <<neg /\ vs # <<0>>, vs>>
IntText(E, s, radix) ==
  LET n == IntNumeral(s, radix) IN
  IF n = <<>> THEN No ELSE Ok(Get1(E.nums, <<radix, n>>))

RECURSIVE Digits(_, _)
Digits(s, i) == IF i <= Len(s) /\ Digit(s[i]) THEN Digits(s, i + 1) ELSE i
CharAt(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
Decimal(s) ==
  LET a == IF CharAt(s, 1) \in {43, 45} THEN 2 ELSE 1
      b == Digits(s, a)
      c == IF CharAt(s, b) = 46 THEN Digits(s, b + 1) ELSE b
      n == (b - a) + (IF c > b THEN c - b - 1 ELSE 0)
      e == CharAt(s, c) \in {69, 101}
      f == IF CharAt(s, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1
  IN  n > 0 /\ (IF e THEN Digits(s, f) > f /\ Digits(s, f) = Len(s) + 1 ELSE c = Len(s) + 1)
\* Infinity, not a number, and hexadecimal floats have texts too
OtherFloat(s) == \E i \in 1..Len(s) : s[i] \in {73, 78, 80, 88, 95, 105, 110, 112, 120}
FloatText(E, s) ==
  IF Decimal(s) THEN (IF Has1(E.reals, s) THEN Ok(Get1(E.reals, s)) ELSE No)
  ELSE IF OtherFloat(s) THEN Unknown ELSE No

\* numbers that say what they are
Small(n) == n >= -4000000 /\ n <= 4000000
Abs(n) == IF n < 0 THEN -n ELSE n
IntOfFloat(E, n) ==
  IF Small(n) THEN Ok(<<"i", IF n < 0 THEN -((Abs(n) \div 4) * 4) ELSE (n \div 4) * 4>>)
  ELSE IF Has1(E.trunc, n) THEN Ok(<<"i", Get1(E.trunc, n)>>) ELSE No
FloatOfInt(E, n) == <<"f", IF Small(n) THEN n ELSE Get1(E.round, n)>>

-----------------------------------------------------------------------------
\* Times: <<"tm", seconds>> or <<"tm", seconds, nanoseconds>>

Time(secs, nanos) == IF nanos = 0 THEN <<"tm", secs>> ELSE <<"tm", secs, nanos>>
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE DaysToYear(_)
DaysToYear(y) == IF y = 1970 THEN 0 ELSE DaysToYear(y - 1) + (IF Leap(y - 1) THEN 366 ELSE 365)
RECURSIVE DaysToMonth(_, _)
DaysToMonth(y, m) == IF m = 1 THEN 0 ELSE DaysToMonth(y, m - 1) + MonthDays(y, m - 1)
N2(s, i) == (s[i] - 48) * 10 + s[i + 1] - 48
\* YYYY-MM-DDTHH:MM:SS
DateTime(s) ==
  /\ Len(s) >= 20
  /\ \A i \in {1, 2, 3, 4, 6, 7, 9, 10, 12, 13, 15, 16, 18, 19} : Digit(s[i])
  /\ s[5] = 45 /\ s[8] = 45 /\ s[11] = 84 /\ s[14] = 58 /\ s[17] = 58
Zone(s, i) ==
  \/ i = Len(s) /\ s[i] = 90
  \/ /\ i + 5 = Len(s) /\ s[i] \in {43, 45} /\ s[i + 3] = 58
     /\ \A j \in {1, 2, 4, 5} : Digit(s[i + j])
\* nanoseconds in the digits of s from i until j
RECURSIVE Nanos(_, _, _, _)
Nanos(s, i, j, unit) == IF i = j \/ unit = 0 THEN 0 ELSE (s[i] - 48) * unit + Nanos(s, i + 1, j, unit \div 10)
\* what may be read as a time by a lenient reader
Dubious(s) == Len(s) >= 17 /\ \A i \in 1..Len(s) : Digit(s[i]) \/ s[i] \in {84, 90, 58, 46, 44, 43, 45}
TimeText(s) ==
  IF ~DateTime(s) THEN (IF Dubious(s) THEN Unknown ELSE No)
  ELSE
  LET y == N2(s, 1) * 100 + N2(s, 3)
      mo == N2(s, 6)
      d == N2(s, 9)
      h == N2(s, 12)
      mi == N2(s, 15)
      sec == N2(s, 18)
      z == IF s[20] = 46 THEN Digits(s, 21) ELSE 20
      ns == IF z > 20 THEN Nanos(s, 21, z, 100000000) ELSE 0
  IN
  IF z = 21 \/ z > Len(s) \/ ~Zone(s, z) THEN (IF Dubious(s) THEN Unknown ELSE No)
  ELSE IF mo \notin 1..12 \/ d = 0 THEN No
  ELSE IF d > MonthDays(y, mo) \/ h > 23 \/ mi > 59 \/ sec > 59 THEN No
  ELSE LET off == IF s[z] = 90 THEN 0 ELSE N2(s, z + 1) * 3600 + N2(s, z + 4) * 60 IN
       IF s[z] # 90 /\ (N2(s, z + 1) > 23 \/ N2(s, z + 4) > 59) THEN Unknown
       ELSE IF y \notin 1971..2037 THEN Unknown
       ELSE LET t == (DaysToYear(y) + DaysToMonth(y, mo) + d - 1) * 86400 + h * 3600 + mi * 60 + sec IN
            Ok(Time(IF CharAt(s, z) = 45 THEN t + off ELSE t - off, ns))

-----------------------------------------------------------------------------
RECURSIVE HasKindV(_, _)
HasKindV(v, ks) ==
  \/ v[1] \in ks
  \/ v[1] = "sens" /\ HasKindV(v[2], ks)
  \/ v[1] = "arr" /\ \E i \in DOMAIN v[2] : HasKindV(v[2][i], ks)
  \/ v[1] = "map" /\ \E i \in DOMAIN v[2] : HasKindV(v[2][i][1], ks) \/ HasKindV(v[2][i][2], ks)

\* elements in pairs: a key that comes again replaces the value of the former one
RECURSIVE Pairs(_, _)
Pairs(vs, es) ==
  IF vs = <<>> THEN es
  ELSE LET at == {i \in DOMAIN es : Eq(es[i][1], vs[1])}
       IN Pairs(SubSeq(vs, 3, Len(vs)),
                IF at = {} THEN Append(es, <<vs[1], vs[2]>>)
                ELSE [i \in DOMAIN es |-> IF i \in at THEN <<es[i][1], vs[2]>> ELSE es[i]])

TrueTexts == {<<116, 114, 117, 101>>, <<121, 101, 115>>, <<121>>}
FalseTexts == {<<102, 97, 108, 115, 101>>, <<110, 111>>, <<110>>}
Encs == [b |-> <<37, 98>>, B |-> <<37, 66>>, u |-> <<37, 117>>, s |-> <<37, 115>>, r |-> <<37, 114>>]
EncName(s) ==
  CASE s = Encs.b -> "%b" [] s = Encs.B -> "%B" [] s = Encs.u -> "%u" [] s = Encs.s -> "%s" [] s = Encs.r -> "%r" [] OTHER -> ""
Decoded(s, enc) == LET r == B!Decode(s, enc) IN IF r[1] = "ok" THEN Ok(<<"bin", r[2]>>) ELSE No
Radix == {8, 32, 40, 64} \* 2, 8, 10 and 16

ToInt(E, v, radix) ==
  CASE v[1] = "i" -> Ok(v)
    [] v[1] = "f" -> IntOfFloat(E, v[2])
    [] v[1] = "tm" -> IF Len(v) = 2 /\ Abs(v[2]) <= 1000000 THEN Ok(<<"i", 4 * v[2]>>) ELSE Unknown
    [] v[1] = "b" -> Ok(<<"i", IF v[2] THEN 4 ELSE 0>>)
    [] v[1] = "s" -> IntText(E, v[2], radix)
    [] OTHER -> No
ToFloat(E, v) ==
  CASE v[1] = "f" -> Ok(v)
    [] v[1] = "nan" -> Unknown
    [] v[1] = "i" -> Ok(FloatOfInt(E, v[2]))
    [] v[1] = "tm" -> IF Len(v) = 2 /\ Abs(v[2]) <= 1000000 THEN Ok(<<"f", 4 * v[2]>>) ELSE Unknown
    [] v[1] = "b" -> Ok(<<"f", IF v[2] THEN 4 ELSE 0>>)
    [] v[1] = "s" -> FloatText(E, v[2])
    [] OTHER -> No
ToBool(v) ==
  CASE v[1] = "b" -> Ok(v)
    [] v[1] \in {"i", "f"} -> Ok(<<"b", v[2] # 0>>)
    [] v[1] = "nan" -> Ok(<<"b", TRUE>>)
    [] v[1] = "s" -> IF Fold(v[2]) \in TrueTexts THEN Ok(<<"b", TRUE>>) ELSE IF Fold(v[2]) \in FalseTexts THEN Ok(<<"b", FALSE>>) ELSE No
    [] OTHER -> No
ToTime(v) ==
  CASE v[1] = "tm" -> Ok(v)
    [] v[1] = "i" -> IF Small(v[2]) THEN Ok(<<"tm", v[2] \div 4>>) ELSE Unknown
    [] v[1] = "f" -> IF Small(v[2]) THEN Ok(Time(v[2] \div 4, (v[2] % 4) * 250000000)) ELSE Unknown
    [] v[1] = "nan" -> Unknown
    [] v[1] = "s" -> TimeText(v[2])
    [] OTHER -> No
Decimals(E, n) == Get1(E.texts, n)
ToText(E, v) ==
  CASE v[1] = "s" -> Ok(v)
    [] v[1] = "i" -> Ok(<<"s", Decimals(E, v[2])>>)
    [] v[1] = "b" -> Ok(<<"s", IF v[2] THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>>>)
    [] OTHER -> Unknown
ToBin(v) ==
  CASE v[1] = "bin" -> Ok(v)
    [] v[1] = "s" -> Decoded(v[2], "%B")
    [] v[1] = "arr" -> IF \A i \in DOMAIN v[2] : v[2][i][1] = "i" /\ v[2][i][2] \in 0..1020
                       THEN Ok(<<"bin", [i \in DOMAIN v[2] |-> v[2][i][2] \div 4]>>) ELSE No
    [] OTHER -> No
ToMap(v) ==
  CASE v[1] = "map" -> Ok(v)
    [] v[1] = "arr" -> IF Len(v[2]) % 2 = 0 THEN Ok(<<"map", Pairs(v[2], <<>>)>>) ELSE No
    [] v[1] = "nat" -> Unknown
    [] OTHER -> No
ToArr(v) == CASE v[1] = "arr" -> Ok(v) [] v[1] = "map" -> Unknown [] OTHER -> No

\* the kind of constructor that a type has
Ctor(t) ==
  CASE t[1] = "bool" -> "bool"
    [] t[1] \in {"int", "intr"} -> "int"
    [] t[1] \in {"float", "floatr"} -> "float"
    [] t[1] \in {"string", "strsz", "pat", "ci", "dgo"} -> "string"
    [] t[1] \in {"arr", "arrz", "tup"} -> "arr"
    [] t[1] \in {"map", "mapz", "struct"} -> "map"
    [] t[1] = "bin" -> "bin"
    [] t[1] = "time" -> "time"
    [] t[1] \in {"meta", "metameta"} -> "meta"
    [] t[1] = "sens" -> "sens"
    [] t[1] = "x" -> LET k == t[2][1] IN
         CASE k = "b" -> "bool" [] k = "i" -> "int" [] k = "f" -> "float" [] k = "s" -> "string" [] k = "arr" -> "arr" [] k = "map" -> "map"
           [] k = "bin" -> "bin" [] k = "tm" -> "time" [] k \in {"n", "rx"} -> "none" [] OTHER -> "?"
    [] t[1] = "ref" -> "?"
    [] OTHER -> "none"

\* from one argument
Conv1(E, t, v) ==
  LET c == Ctor(t) IN
  CASE HasKindV(v, {"nat"}) /\ c \in {"arr", "map", "string"} -> Unknown
    [] c = "bool" -> ToBool(v)
    [] c = "int" -> ToInt(E, v, 10)
    [] c = "float" -> ToFloat(E, v)
    [] c = "string" -> ToText(E, v)
    [] c = "bin" -> ToBin(v)
    [] c = "time" -> ToTime(v)
    [] c = "arr" -> ToArr(v)
    [] c = "map" -> ToMap(v)
    [] c = "sens" -> IF v[1] = "sens" THEN Ok(v) ELSE Ok(<<"sens", v>>)
    [] c = "meta" -> IF v[1] = "t" THEN Ok(v) ELSE IF v[1] = "s" THEN (IF v[2] \in E.dgo THEN Unknown ELSE No) ELSE No
    [] c = "none" -> Ok(v)
    [] OTHER -> Unknown

Dec == {<<37, 100>>, <<37, 118>>}
\* from two arguments
Conv2(E, t, v, w) ==
  LET c == Ctor(t) IN
  CASE c = "int" -> IF w[1] = "i" /\ w[2] \in Radix THEN ToInt(E, v, w[2] \div 4) ELSE No
    [] c = "bin" -> IF v[1] = "s" /\ w[1] = "s" /\ EncName(w[2]) # "" THEN Decoded(v[2], EncName(w[2])) ELSE No
    [] c = "string" ->
         IF w[1] # "s" \/ w[2] = <<>> \/ w[2][1] # 37 \/ Len(w[2]) = 1 \/ Digit(w[2][Len(w[2])]) THEN No
         ELSE IF w[2] \in Dec /\ v[1] = "i" THEN Ok(<<"s", Decimals(E, v[2])>>)
         ELSE IF w[2] \in {<<37, 115>>, <<37, 118>>} /\ v[1] = "s" THEN Ok(v)
         ELSE Unknown
    [] c = "?" -> Unknown
    [] OTHER -> No

Conv(E, t, args) ==
  CASE Len(args) = 1 -> Conv1(E, t, args[1])
    [] Len(args) = 2 -> Conv2(E, t, args[1], args[2])
    [] OTHER -> IF Ctor(t) = "?" THEN Unknown ELSE No

\* what New must yield
Made(E, t, args) ==
  LET c == Conv(E, t, args) IN
  IF c[1] = "ok" /\ ~In(E, c[2], t) THEN No ELSE IF c[1] = "ok" /\ HasKindV(c[2], {"nan", "nat"}) THEN Unknown ELSE c
=============================================================================
