------------------------------- MODULE Binary -------------------------------
(***************************************************************************)
(* Binaries, the go slices that they are created from or that they hand    *)
(* out, and the memory that they may share.                                *)
(*                                                                         *)
(* A state is [m, s, b]: the memory cells (each a sequence of bytes), the  *)
(* cell of each go slice, and the cell and frozen flag of each binary.     *)
(* Only a binary that isn't frozen shares its cell with a go slice.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Start == [m |-> <<>>, s |-> <<>>, b |-> <<>>]

-----------------------------------------------------------------------------
\* Texts are sequences of bytes

Upper == [i \in 0..25 |-> 65 + i]
\* the character for a digit of six bits
Char(d, url) ==
  IF d < 26 THEN 65 + d ELSE IF d < 52 THEN 97 + d - 26 ELSE IF d < 62 THEN 48 + d - 52
  ELSE IF d = 62 THEN (IF url THEN 45 ELSE 43) ELSE (IF url THEN 95 ELSE 47)
Digit(c, url) ==
  IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 97 + 26 ELSE IF c \in 48..57 THEN c - 48 + 52
  ELSE IF c = Char(62, url) THEN 62 ELSE IF c = Char(63, url) THEN 63 ELSE -1

RECURSIVE Encode(_)
Encode(bs) ==
  CASE bs = <<>> -> <<>>
    [] Len(bs) = 1 -> <<Char(bs[1] \div 4, FALSE), Char((bs[1] % 4) * 16, FALSE), 61, 61>>
    [] Len(bs) = 2 -> <<Char(bs[1] \div 4, FALSE), Char((bs[1] % 4) * 16 + bs[2] \div 16, FALSE), Char((bs[2] % 16) * 4, FALSE), 61>>
    [] OTHER -> <<Char(bs[1] \div 4, FALSE), Char((bs[1] % 4) * 16 + bs[2] \div 16, FALSE),
                  Char((bs[2] % 16) * 4 + bs[3] \div 64, FALSE), Char(bs[3] % 64, FALSE)>> \o Encode(SubSeq(bs, 4, Len(bs)))

Bad == <<"bad">>
\* line ends are insignificant
Significant(t) == SelectSeq(t, LAMBDA c : c # 10 /\ c # 13)
RECURSIVE Quads(_, _, _)
\* t is decoded four characters at a time
Quads(t, url, strict) ==
  IF t = <<>> THEN <<"ok", <<>>>>
  ELSE IF Len(t) < 4 THEN Bad
  ELSE LET d == [i \in 1..4 |-> Digit(t[i], url)]
           last == Len(t) = 4
           b1 == d[1] * 4 + d[2] \div 16
           b2 == (d[2] % 16) * 16 + d[3] \div 4
           b3 == (d[3] % 4) * 64 + d[4]
       IN IF d[1] < 0 \/ d[2] < 0 THEN Bad
          ELSE IF last /\ t[3] = 61 /\ t[4] = 61 THEN (IF strict /\ d[2] % 16 # 0 THEN Bad ELSE <<"ok", <<b1>>>>)
          ELSE IF d[3] < 0 THEN Bad
          ELSE IF last /\ t[4] = 61 THEN (IF strict /\ d[3] % 4 # 0 THEN Bad ELSE <<"ok", <<b1, b2>>>>)
          ELSE IF d[4] < 0 THEN Bad
          ELSE LET r == Quads(SubSeq(t, 5, Len(t)), url, strict) IN IF r = Bad THEN Bad ELSE <<"ok", <<b1, b2, b3>> \o r[2]>>

Cont(t, i) == i <= Len(t) /\ t[i] \in 128..191
RECURSIVE Utf8(_)
Utf8(t) ==
  IF t = <<>> THEN TRUE
  ELSE LET c == t[1]
           n == IF c < 128 THEN 1 ELSE IF c \in 194..223 THEN 2 ELSE IF c \in 224..239 THEN 3 ELSE IF c \in 240..244 THEN 4 ELSE 0
       IN /\ n > 0 /\ Len(t) >= n
          /\ \A i \in 2..n : Cont(t, i)
          /\ (c = 224 => t[2] >= 160) /\ (c = 237 => t[2] <= 159) /\ (c = 240 => t[2] >= 144) /\ (c = 244 => t[2] <= 143)
          /\ Utf8(SubSeq(t, n + 1, Len(t)))

\* what a text denotes in an encoding
Decode(t, enc) ==
  CASE enc = "%b" -> Quads(Significant(t), FALSE, FALSE)
    [] enc = "%B" -> Quads(Significant(t), FALSE, TRUE)
    [] enc = "%u" -> Quads(Significant(t), TRUE, FALSE)
    [] enc = "%s" -> IF Utf8(t) THEN <<"ok", t>> ELSE Bad
    [] enc = "%r" -> <<"ok", t>>
    [] OTHER -> Bad

-----------------------------------------------------------------------------
\* Steps. Each yields [r |-> result, s |-> state]

Panic == <<"panic">>
None == <<"ok">>
Bytes(S, id) == S.m[S.b[id][1]]
Frozen(S, id) == S.b[id][2]
NewSlice(S, bs) == [S EXCEPT !.m = Append(@, bs), !.s = Append(@, Len(S.m) + 1)]
NewBin(S, bs, fz) == [S EXCEPT !.m = Append(@, bs), !.b = Append(@, <<Len(S.m) + 1, fz>>)]
Bin(S) == <<"bin", Len(S.b)>>
R(r, S) == [r |-> r, s |-> S]
New(S) == R(Bin(S), S)

\* a frozen copy of what is frozen is the same binary
Copy(S, id, fz) == IF fz /\ Frozen(S, id) THEN R(<<"bin", id>>, S) ELSE New(NewBin(S, Bytes(S, id), fz))

RECURSIVE BytesCmp(_, _)
BytesCmp(a, b) ==
  IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
  ELSE IF b = <<>> THEN 1
  ELSE IF a[1] < b[1] THEN -1
  ELSE IF a[1] > b[1] THEN 1
  ELSE BytesCmp(Tail(a), Tail(b))

Step(S, o) ==
  CASE o.op = "slice" -> LET T == NewSlice(S, o.x) IN R(<<"slice", Len(T.s)>>, T)
    \* a byte of a go slice is assigned
    [] o.op = "write" -> R(None, [S EXCEPT !.m[S.s[o.a]][o.i] = o.v])
    \* a binary that is created mutable wraps the slice
    [] o.op = "new" -> IF o.fz THEN New(NewBin(S, S.m[S.s[o.a]], TRUE))
                       ELSE New([S EXCEPT !.b = Append(@, <<S.s[o.a], FALSE>>)])
    \* conversion of a slice
    [] o.op = "value" -> New(NewBin(S, S.m[S.s[o.a]], TRUE))
    [] o.op = "data" -> New(NewBin(S, o.x, TRUE))
    [] o.op = "decode" -> LET d == Decode(o.x, o.enc) IN IF d = Bad THEN R(Panic, S) ELSE New(NewBin(S, d[2], TRUE))
    [] o.op = "numbers" -> IF \A i \in 1..Len(o.x) : o.x[i] \in 0..255 THEN New(NewBin(S, o.x, TRUE)) ELSE R(Panic, S)
    \* the bytes, which are shared unless the binary is frozen
    [] o.op = "bytes" -> LET T == IF Frozen(S, o.b) THEN NewSlice(S, Bytes(S, o.b)) ELSE [S EXCEPT !.s = Append(@, S.b[o.b][1])]
                         IN R(<<"slice", Len(T.s)>>, T)
    [] o.op = "freeze" -> R(None, IF Frozen(S, o.b) THEN S
                                  ELSE [S EXCEPT !.m = Append(@, Bytes(S, o.b)), !.b[o.b] = <<Len(S.m) + 1, TRUE>>])
    [] o.op = "copy" -> Copy(S, o.b, o.fz)
    \* as an element of an array or a value of a map that is frozen or not
    [] o.op = "held" -> IF o.fz THEN Copy(S, o.b, TRUE) ELSE R(<<"bin", o.b>>, S)
    [] o.op = "key" -> Copy(S, o.b, TRUE)
    [] o.op = "equals" -> R(<<"v", Bytes(S, o.b) = Bytes(S, o.c)>>, S)
    [] o.op = "equalsGo" -> R(<<"v", Bytes(S, o.b) = S.m[S.s[o.a]]>>, S)
    [] o.op = "hash" -> R(IF Bytes(S, o.b) = Bytes(S, o.c) THEN <<"v", TRUE>> ELSE <<"any">>, S)
    [] o.op = "compare" -> R(<<"v", BytesCmp(Bytes(S, o.b), Bytes(S, o.c))>>, S)
    [] o.op = "compareGo" -> R(<<"v", BytesCmp(Bytes(S, o.b), S.m[S.s[o.a]])>>, S)
    [] o.op = "encode" -> R(<<"v", Encode(Bytes(S, o.b))>>, S)
    [] o.op = "string" -> R(<<"v", Encode(Bytes(S, o.b))>>, S)
    \* what the type of a binary says: the sizes, and whether another is an instance of it
    [] o.op = "type" -> R(<<"v", Len(Bytes(S, o.b)), Len(Bytes(S, o.b)), Bytes(S, o.b) = Bytes(S, o.c)>>, S)

\* what can be observed
Project(S) == [s |-> [i \in 1..Len(S.s) |-> S.m[S.s[i]]], b |-> [i \in 1..Len(S.b) |-> <<Bytes(S, i), Frozen(S, i)>>]]

-----------------------------------------------------------------------------
\* P22, of two successive states
\* No go slice is a way to change a frozen binary
Shielded(S) == \A i \in 1..Len(S.b), j \in 1..Len(S.s) : Frozen(S, i) => S.b[i][1] # S.s[j]
\* and no other binary
Alone(S) == \A i, j \in 1..Len(S.b) : i # j /\ Frozen(S, i) => S.b[i][1] # S.b[j][1]
\* of what is observed before and after
Immutable(h, g) == \A i \in 1..Len(h.b) : h.b[i][2] => i <= Len(g.b) /\ g.b[i] = h.b[i]
\* an operation that isn't an assignment changes no bytes
Reading(h, o, g) ==
  o.op # "write" => /\ \A i \in 1..Len(h.s) : g.s[i] = h.s[i]
                    /\ \A i \in 1..Len(h.b) : g.b[i][1] = h.b[i][1] /\ (g.b[i][2] = h.b[i][2] \/ (o.op = "freeze" /\ o.b = i))
=============================================================================
