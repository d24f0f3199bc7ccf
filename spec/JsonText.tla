-------------------------------- MODULE JsonText -----------------------------
(***************************************************************************)
(* JSON texts. A text is a sequence of bytes and what it says is a         *)
(* sequence of events:                                                     *)
(*   <<"add", leaf>>  a string, number, boolean, or null                   *)
(*   <<"arr", n>>, <<"map", n>>  start of an array or an object            *)
(*   <<"end">>        the end of the innermost array or object             *)
(*   <<"ref", i>>     {"<ref key>": i}                                     *)
(* nums has the numeric value of the numerals: <<bytes, leaf>>.            *)
(***************************************************************************)
EXTENDS Types

JAt(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
Digit(c) == c \in 48..57
Hex(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexV(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Hex4(s, i) == Hex(JAt(s, i)) /\ Hex(JAt(s, i + 1)) /\ Hex(JAt(s, i + 2)) /\ Hex(JAt(s, i + 3))
Hex4V(s, i) == HexV(s[i]) * 4096 + HexV(s[i + 1]) * 256 + HexV(s[i + 2]) * 16 + HexV(s[i + 3])

\* UTF-8
Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

RECURSIVE Blank(_, _)
Blank(s, i) == IF JAt(s, i) \in {32, 9, 10, 13} THEN Blank(s, i + 1) ELSE i
RECURSIVE Digits(_, _)
Digits(s, i) == IF Digit(JAt(s, i)) THEN Digits(s, i + 1) ELSE i

\* the index of what follows the numeral at i, or 0
Number(s, i) ==
  LET a == IF JAt(s, i) = 45 THEN i + 1 ELSE i
      b == IF JAt(s, a) = 48 THEN a + 1 ELSE Digits(s, a)
      c == IF JAt(s, b) = 46 THEN Digits(s, b + 1) ELSE b
      e == JAt(s, c) \in {69, 101}
      f == IF JAt(s, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1
  IN  IF b = a \/ (JAt(s, b) = 46 /\ c = b + 1) THEN 0
      ELSE IF ~e THEN c
      ELSE IF Digits(s, f) = f THEN 0 ELSE Digits(s, f)

\* What a string says, where i is the index of what follows the first quote. <<index of what follows, bytes>> or <<0>>
RECURSIVE Str(_, _, _)
Str(s, i, acc) ==
  LET c == JAt(s, i) IN
  IF i > Len(s) \/ c < 32 THEN <<0>>
  ELSE IF c = 34 THEN <<i + 1, acc>>
  ELSE IF c # 92 THEN Str(s, i + 1, Append(acc, c))
  ELSE LET d == JAt(s, i + 1) IN
    CASE d \in {34, 92, 47} -> Str(s, i + 2, Append(acc, d))
      [] d = 98 -> Str(s, i + 2, Append(acc, 8))
      [] d = 102 -> Str(s, i + 2, Append(acc, 12))
      [] d = 110 -> Str(s, i + 2, Append(acc, 10))
      [] d = 114 -> Str(s, i + 2, Append(acc, 13))
      [] d = 116 -> Str(s, i + 2, Append(acc, 9))
      [] d = 117 ->
           IF ~Hex4(s, i + 2) THEN <<0>>
           ELSE LET u == Hex4V(s, i + 2)
                    pair == u \in 55296..56319 /\ JAt(s, i + 6) = 92 /\ JAt(s, i + 7) = 117 /\ Hex4(s, i + 8)
                            /\ Hex4V(s, i + 8) \in 56320..57343
                IN  IF pair THEN Str(s, i + 12, acc \o Utf8(65536 + (u - 55296) * 1024 + (Hex4V(s, i + 8) - 56320)))
                    ELSE Str(s, i + 6, acc \o Utf8(IF u \in 55296..57343 THEN 65533 ELSE u))
      [] OTHER -> <<0>>

Word(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>
Null == <<110, 117, 108, 108>>

NumV(nums, w) == LET ns == {n \in DOMAIN nums : nums[n][1] = w} IN nums[CHOOSE n \in ns : TRUE][2]

\* A value, an array, and an object. Yields <<index of what follows, events>> or <<0>>.
RECURSIVE JVal(_, _, _, _, _)
RECURSIVE JArr(_, _, _, _, _)
RECURSIVE JObj(_, _, _, _, _)
JVal(s, at, nums, ref, acc) ==
  LET i == Blank(s, at)
      c == JAt(s, i)
  IN
  CASE c = 123 ->
         LET j == Blank(s, i + 1) IN
         IF JAt(s, j) = 125 THEN <<j + 1, acc \o <<<<"map", 0>>, <<"end">>>>>>
         ELSE IF JAt(s, j) # 34 THEN <<0>>
         ELSE LET k == Str(s, j + 1, <<>>)
                  v == IF k[1] = 0 THEN 0 ELSE Blank(s, k[1])
              IN
              IF v = 0 \/ JAt(s, v) # 58 THEN <<0>>
              ELSE IF k[2] = ref THEN
                LET n == Blank(s, v + 1)
                    m == Number(s, n)
                    e == IF m = 0 THEN 0 ELSE Blank(s, m)
                IN  IF m = 0 \/ JAt(s, e) # 125 THEN <<0>>
                    ELSE LET x == NumV(nums, SubSeq(s, n, m - 1)) IN
                         IF x[1] # "i" THEN <<0>> ELSE <<e + 1, Append(acc, <<"ref", x[2] \div 4>>)>>
              ELSE JObj(s, j, nums, ref, Append(acc, <<"map", 0>>))
    [] c = 91 ->
         LET j == Blank(s, i + 1) IN
         IF JAt(s, j) = 93 THEN <<j + 1, acc \o <<<<"arr", 0>>, <<"end">>>>>> ELSE JArr(s, j, nums, ref, Append(acc, <<"arr", 0>>))
    [] c = 34 -> LET k == Str(s, i + 1, <<>>) IN IF k[1] = 0 THEN <<0>> ELSE <<k[1], Append(acc, <<"add", <<"s", k[2]>>>>)>>
    [] Word(s, i, True) -> <<i + 4, Append(acc, <<"add", <<"b", TRUE>>>>)>>
    [] Word(s, i, False) -> <<i + 5, Append(acc, <<"add", <<"b", FALSE>>>>)>>
    [] Word(s, i, Null) -> <<i + 4, Append(acc, <<"add", <<"n">>>>)>>
    [] c = 45 \/ Digit(c) ->
         LET j == Number(s, i) IN IF j = 0 THEN <<0>> ELSE <<j, Append(acc, <<"add", NumV(nums, SubSeq(s, i, j - 1))>>)>>
    [] OTHER -> <<0>>
\* at the start of an element
JArr(s, i, nums, ref, acc) ==
  LET r == JVal(s, i, nums, ref, acc) IN
  IF r[1] = 0 THEN <<0>>
  ELSE LET j == Blank(s, r[1]) IN
       IF JAt(s, j) = 93 THEN <<j + 1, Append(r[2], <<"end">>)>>
       ELSE IF JAt(s, j) = 44 THEN JArr(s, j + 1, nums, ref, r[2])
       ELSE <<0>>
\* at the start of a key
JObj(s, at, nums, ref, acc) ==
  LET i == Blank(s, at) IN
  IF JAt(s, i) # 34 THEN <<0>>
  ELSE LET k == Str(s, i + 1, <<>>)
           c == IF k[1] = 0 THEN 0 ELSE Blank(s, k[1])
       IN
       IF c = 0 \/ JAt(s, c) # 58 THEN <<0>>
       ELSE LET r == JVal(s, c + 1, nums, ref, Append(acc, <<"add", <<"s", k[2]>>>>)) IN
            IF r[1] = 0 THEN <<0>>
            ELSE LET j == Blank(s, r[1]) IN
                 IF JAt(s, j) = 125 THEN <<j + 1, Append(r[2], <<"end">>)>>
                 ELSE IF JAt(s, j) = 44 THEN JObj(s, j + 1, nums, ref, r[2])
                 ELSE <<0>>
\* All events of a text: <<index of what follows, events>> or <<0>>
Says(s, nums, ref) == JVal(s, 1, nums, ref, <<>>)
=============================================================================
