------------------------------- MODULE Pcore -------------------------------
(***************************************************************************)
(* The language of the pcore parser (Puppet values and types): what each   *)
(* text denotes (P25). Terms are as in Grammar.tla: a type, or             *)
(* <<"val", value>> for what isn't a type. The term <<"?">> stands for      *)
(* something that the specification doesn't tell.                          *)
(*                                                                         *)
(* E.nums and E.rx are as in Grammar.tla, where E.rx also tells about the  *)
(* strings. E.fl has <<integer, nearest float>> for integers, and E.round  *)
(* <<float, least integer that isn't less, largest that isn't greater>> of *)
(* floats, where each of those is <<>> when no such integer exists.         *)
(***************************************************************************)
EXTENDS Grammar

IsLowerC(c) == c \in 97..122
IsUpperC(c) == c \in 65..90
IsWordC(c) == IsLetterC(c) \/ IsDigitC(c) \/ c = 95

-----------------------------------------------------------------------------
\* Lexer

RECURSIVE EndWord(_, _)
EndWord(s, i) == IF IsWordC(CharAt(s, i)) THEN EndWord(s, i + 1) ELSE i
RECURSIVE WordFrom(_, _, _, _)
\* the rest of a name or an identifier whose segment started before i. Segments are separated by two colons
WordFrom(s, i, p, kind) ==
  LET j == EndWord(s, i)
      c == CharAt(s, j + 2)
  IN  IF CharAt(s, j) # 58 THEN Token(kind, SubSeq(s, p, j - 1), p, j)
      ELSE IF CharAt(s, j + 1) # 58 THEN BadToken(p, j + 1)
      ELSE IF (kind = "name" /\ IsUpperC(c)) \/ (kind = "id" /\ (IsLowerC(c) \/ c = 95)) THEN WordFrom(s, j + 3, p, kind)
      ELSE BadToken(p, j + 2)

RECURSIVE EndLine(_, _)
EndLine(s, i) == IF CharAt(s, i) \in {0, 10} THEN i ELSE EndLine(s, i + 1)

RECURSIVE PTokenAt(_, _)
PTokenAt(s, i) ==
  LET c == CharAt(s, i) IN
  IF i > Len(s) THEN Token("eot", <<>>, i, i)
  ELSE IF c \in {32, 9, 10} THEN PTokenAt(s, i + 1)
  ELSE IF c = 35 THEN PTokenAt(s, EndLine(s, i))
  ELSE IF c \in {34, 39} THEN QuotedBy(c, s, i + 1, <<>>, i)
  ELSE IF c = 47 THEN Slashed(s, i + 1, <<>>, i)
  ELSE IF c = 61 /\ CharAt(s, i + 1) = 62 THEN Token("=>", <<>>, i, i + 2)
  ELSE IF c \in {43, 45} THEN IF IsDigitC(CharAt(s, i + 1)) THEN NumToken(s, i, i + 1) ELSE BadToken(i, i + 1)
  ELSE IF IsDigitC(c) THEN NumToken(s, i, i)
  ELSE IF IsUpperC(c) THEN WordFrom(s, i + 1, i, "name")
  ELSE IF IsLowerC(c) THEN WordFrom(s, i + 1, i, "id")
  ELSE IF c < 32 THEN BadToken(i, i)
  ELSE Token("c", <<c>>, i, IF c < 128 THEN i + 1 ELSE EndChar(s, i + 1))

RECURSIVE PLex(_, _, _)
PLex(s, i, acc) ==
  LET t == PTokenAt(s, i) IN IF t.k \in {"eot", "err"} THEN Append(acc, t) ELSE PLex(s, t.q, Append(acc, t))

\* foo.bar for Foo::Bar
RECURSIVE DgoName(_, _)
DgoName(s, first) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[1] = 58 THEN <<Dot>> \o DgoName(SubSeq(s, 3, Len(s)), TRUE)
  ELSE <<IF first /\ IsUpperC(s[1]) THEN s[1] + 32 ELSE s[1]>> \o DgoName(Tail(s), FALSE)

-----------------------------------------------------------------------------
\* Terms

Q == <<"?">>
\* names of the types
Name == [Any |-> <<65, 110, 121>>, Boolean |-> <<66, 111, 111, 108, 101, 97, 110>>, False |-> <<70, 97, 108, 115, 101>>,
  Timestamp |-> <<84, 105, 109, 101, 115, 116, 97, 109, 112>>, True |-> <<84, 114, 117, 101>>, Undef |-> <<85, 110, 100, 101, 102>>,
  Array |-> <<65, 114, 114, 97, 121>>, Binary |-> <<66, 105, 110, 97, 114, 121>>,
  Callable |-> <<67, 97, 108, 108, 97, 98, 108, 101>>, Float |-> <<70, 108, 111, 97, 116>>, Enum |-> <<69, 110, 117, 109>>,
  Hash |-> <<72, 97, 115, 104>>, Integer |-> <<73, 110, 116, 101, 103, 101, 114>>, Number |-> <<78, 117, 109, 98, 101, 114>>,
  NotUndef |-> <<78, 111, 116, 85, 110, 100, 101, 102>>, Optional |-> <<79, 112, 116, 105, 111, 110, 97, 108>>,
  Pattern |-> <<80, 97, 116, 116, 101, 114, 110>>, Regexp |-> <<82, 101, 103, 101, 120, 112>>,
  Sensitive |-> <<83, 101, 110, 115, 105, 116, 105, 118, 101>>, String |-> <<83, 116, 114, 105, 110, 103>>,
  Struct |-> <<83, 116, 114, 117, 99, 116>>, Tuple |-> <<84, 117, 112, 108, 101>>, Type |-> <<84, 121, 112, 101>>,
  Variant |-> <<86, 97, 114, 105, 97, 110, 116>>]
Plain0 == {"Any", "Boolean", "False", "Timestamp", "True", "Undef"}
Known(s) == \E k \in DOMAIN Name : Name[k] = s
KeyOf(s) == CHOOSE k \in DOMAIN Name : Name[k] = s
Word == [true |-> <<116, 114, 117, 101>>, false |-> <<102, 97, 108, 115, 101>>, undef |-> <<117, 110, 100, 101, 102>>,
  type |-> <<116, 121, 112, 101>>, default |-> <<100, 101, 102, 97, 117, 108, 116>>,
  data |-> <<100, 97, 116, 97>>, richdata |-> <<114, 105, 99, 104, 100, 97, 116, 97>>]

Val(v) == <<"val", v>>
Str(s) == Val(<<"s", s>>)
\* What is an element of an array or a map. <<"made", v>> is a value that is made by a call. That is done at the end, so it can't
\* be the argument of a type.
Held1(t) == IF t[1] = "val" THEN t[2] ELSE <<"t", t>>
\* and what that is as an argument
Arg1(v) == IF v[1] = "t" THEN v[2] ELSE Val(v)

IsTypeT(t) == t[1] # "val"
IsIntV(t) == t[1] = "val" /\ t[2][1] = "i"
IsFloatV(t) == t[1] = "val" /\ t[2][1] = "f"
IsStrV(t) == t[1] = "val" /\ t[2][1] = "s"
IsDefault(t) == t = Str(Word.default)
IsSz(t) == IsIntV(t) \/ IsDefault(t)
\* The integer or the default
IntOr(t, dflt) == IF IsDefault(t) THEN dflt ELSE t[2][2]
SizeOr(t, dflt) == IF IsDefault(t) THEN dflt ELSE SizeOf(t[2][2])

AnyTuple == <<"tup", <<AnyT>>, TRUE>>
NoTuple == <<"tup", <<>>, FALSE>>
NeverT == <<"not", AnyT>>
AnyOfT(ts) == IF ts = <<>> THEN NeverT ELSE IF Len(ts) = 1 THEN ts[1] ELSE <<"anyof", ts>>

RECURSIVE AcceptsNil(_)
AcceptsNil(t) ==
  CASE t[1] \in {"any", "nil"} -> TRUE
    [] t[1] = "x" -> t[2] = <<"n">>
    [] t[1] = "not" -> ~AcceptsNil(t[2])
    [] t[1] = "all" -> \A i \in 1..Len(t[2]) : AcceptsNil(t[2][i])
    [] t[1] = "anyof" -> \E i \in 1..Len(t[2]) : AcceptsNil(t[2][i])
    [] OTHER -> FALSE

RECURSIVE Part(_, _)
RECURSIVE PartV(_, _)
\* some part of t is of kind k
PartV(v, k) ==
  \/ v[1] = k
  \/ CASE v[1] = "arr" -> \E i \in 1..Len(v[2]) : PartV(v[2][i], k)
       [] v[1] = "map" -> \E i \in 1..Len(v[2]) : PartV(v[2][i][1], k) \/ PartV(v[2][i][2], k)
       [] v[1] = "t" -> Part(v[2], k)
       [] v[1] = "made" -> PartV(v[2], k)
       [] OTHER -> FALSE
Part(t, k) ==
  \/ t[1] = k
  \/ CASE t[1] \in {"arrz", "not", "meta", "sens"} -> Part(t[2], k)
       [] t[1] \in {"mapz", "func"} -> Part(t[2], k) \/ Part(t[3], k)
       [] t[1] \in {"tup", "all", "anyof", "one"} -> \E i \in 1..Len(t[2]) : Part(t[2][i], k)
       [] t[1] = "struct" -> \E i \in 1..Len(t[2]) : Part(t[2][i][2], k) \/ PartV(t[2][i][1], k)
       [] t[1] \in {"val", "x"} -> PartV(t[2], k)
       [] OTHER -> FALSE

RECURSIVE AlikeT(_, _)
RECURSIVE AlikeE(_, _)
\* equality where the order of entries doesn't matter, and types are alike
AlikeE(v, w) ==
  IF v[1] # w[1] THEN FALSE
  ELSE CASE v[1] = "made" -> AlikeE(v[2], w[2])
         [] v[1] = "arr" -> Len(v[2]) = Len(w[2]) /\ \A i \in 1..Len(v[2]) : AlikeE(v[2][i], w[2][i])
         [] v[1] = "map" ->
              /\ Len(v[2]) = Len(w[2])
              /\ \A i \in 1..Len(v[2]) : \E j \in 1..Len(w[2]) : AlikeE(v[2][i][1], w[2][j][1]) /\ AlikeE(v[2][i][2], w[2][j][2])
         [] v[1] = "t" -> AlikeT(v[2], w[2])
         [] OTHER -> v = w
AlikeT(a, b) ==
  IF a[1] = "val" \/ b[1] = "val" THEN a[1] = b[1] /\ AlikeE(a[2], b[2])
  ELSE LET x == Norm(a)
           y == Norm(b)
           S(ts, us) == Len(ts) = Len(us) /\ \A i \in 1..Len(ts) : AlikeT(ts[i], us[i])
       IN  IF x[1] # y[1] THEN FALSE
           ELSE CASE x[1] = "x" -> AlikeE(x[2], y[2])
                  [] x[1] = "tup" -> x[3] = y[3] /\ S(x[2], y[2])
                  [] x[1] = "arrz" -> x[3] = y[3] /\ x[4] = y[4] /\ AlikeT(x[2], y[2])
                  [] x[1] = "mapz" -> x[4] = y[4] /\ x[5] = y[5] /\ AlikeT(x[2], y[2]) /\ AlikeT(x[3], y[3])
                  [] x[1] = "func" -> AlikeT(x[2], y[2]) /\ AlikeT(x[3], y[3])
                  [] x[1] = "struct" ->
                       x[3] = y[3] /\ Len(x[2]) = Len(y[2])
                       /\ \A i \in 1..Len(x[2]) : AlikeE(x[2][i][1], y[2][i][1]) /\ AlikeT(x[2][i][2], y[2][i][2]) /\ x[2][i][3] = y[2][i][3]
                  [] x[1] \in {"not", "sens", "meta"} -> AlikeT(x[2], y[2])
                  [] x[1] \in {"all", "anyof", "one"} ->
                       Len(x[2]) = Len(y[2])
                       /\ \A i \in 1..Len(x[2]) : \E j \in 1..Len(y[2]) : AlikeT(x[2][i], y[2][j])
                       /\ \A n \in 1..Len(y[2]) : \E m \in 1..Len(x[2]) : AlikeT(x[2][m], y[2][n])
                  [] OTHER -> x = y

RECURSIVE Final(_)
\* with what the calls make
Final(v) ==
  CASE v[1] = "made" -> v[2]
    [] v[1] = "arr" -> <<"arr", [i \in 1..Len(v[2]) |-> Final(v[2][i])]>>
    [] v[1] = "map" -> <<"map", [i \in 1..Len(v[2]) |-> <<Final(v[2][i][1]), Final(v[2][i][2])>>]>>
    [] OTHER -> v

\* The entries m with the value v for the key k. The last one counts.
PutIn(m, k, v) ==
  LET at == {i \in 1..Len(m) : AlikeE(m[i][1], k)} IN
  IF at = {} THEN Append(m, <<k, v>>) ELSE [i \in 1..Len(m) |-> IF i \in at THEN <<m[i][1], v>> ELSE m[i]]

-----------------------------------------------------------------------------
\* What a type with arguments denotes: a term, or Bad when the arguments aren't acceptable
Bad == <<"bad">>

RxOk(E, s) == LET n == Lookup(E.rx, s) IN IF n = 0 THEN \A i \in 1..Len(s) : IsWordC(s[i]) \/ s[i] = 58 ELSE E.rx[n][2]
\* the regular expression that a string or regexp denotes
RxOf(E, t) ==
  IF t[1] = "val" /\ t[2][1] = "rx" THEN t[2][2]
  ELSE IF IsStrV(t) /\ RxOk(E, t[2][2]) THEN t[2][2] ELSE <<-1>>

Get(tab, k) == LET n == Lookup(tab, k) IN tab[n]
IsNumber(t) == IsIntV(t) \/ IsFloatV(t) \/ IsDefault(t)
FloatOr(E, t, dflt) == IF IsDefault(t) THEN dflt ELSE IF IsIntV(t) THEN Get(E.fl, t[2][2])[2] ELSE t[2][2]

TypesOnly(ts) == \A i \in 1..Len(ts) : IsTypeT(ts[i])

TupleOfArgs(ps) ==
  LET l == Len(ps)
      one == l > 0 /\ IsSz(ps[l])
      two == one /\ l > 1 /\ IsSz(ps[l - 1])
      n == IF two THEN l - 2 ELSE IF one THEN l - 1 ELSE l
      ts == SubSeq(ps, 1, n)
      exact == ~one \/ (two /\ IntOr(ps[l - 1], 4 * n) = 4 * n /\ IntOr(ps[l], 4 * n) = 4 * n)
      negative == (one /\ IntOr(ps[l], 0) < 0) \/ (two /\ IntOr(ps[l - 1], 0) < 0)
  IN  IF ~TypesOnly(ts) THEN Bad
      ELSE IF negative THEN Q
      ELSE IF exact THEN <<"tup", ts, FALSE>>
      ELSE IF n = 0 THEN Bad ELSE <<"tup", ts, TRUE>>

\* The last argument of a function that accepts a block is the block. It becomes the first argument.
IsBlock(t) == t[1] = "func"
WithBlock(ps) ==
  LET l == Len(ps)
      More(t) == IF IsIntV(t) THEN Val(<<"i", t[2][2] + 4>>) ELSE t
  IN  IF l < 2 \/ ~IsBlock(ps[l]) THEN ps
      ELSE <<ps[l]>> \o [i \in 1..(l - 1) |-> IF i = l - 1 \/ (i = l - 2 /\ IsSz(ps[l - 1])) THEN More(ps[i]) ELSE ps[i]]

Callable(ps) ==
  LET pair == Len(ps) = 2 /\ ps[1][1] = "val" /\ ps[1][2][1] = "arr"
      in0 == IF pair THEN [i \in 1..Len(ps[1][2][2]) |-> Arg1(ps[1][2][2][i])] ELSE ps
      odd == Len(in0) > 1 /\ IsBlock(in0[Len(in0)]) /\ \E i \in 1..Len(in0) : IsDefault(in0[i]) \/ (IsIntV(in0[i]) /\ in0[i][2][2] < 0)
      in == TupleOfArgs(WithBlock(in0))
  IN  IF pair /\ ~IsTypeT(ps[2]) THEN Bad
      ELSE IF odd THEN Q
      ELSE IF in \in {Bad, Q} THEN in
      ELSE <<"func", in, IF pair THEN <<"tup", <<ps[2]>>, FALSE>> ELSE NoTuple>>

\* An entry of a struct: the key can be a value or an exact type, or be optional
StructKey(k) ==
  LET opt == k[1] = "t" /\ k[2][1] = "anyof" /\ Len(k[2][2]) = 2 /\ Norm(k[2][2][1])[1] = "nil"
      t == IF opt THEN k[2][2][2] ELSE IF k[1] = "t" THEN k[2] ELSE <<"x", k>>
      n == Norm(t)
  IN  IF IsX(n) THEN <<XVal(n), ~opt>> ELSE Bad
Struct(m) ==
  LET es == [i \in 1..Len(m) |-> <<StructKey(m[i][1]), AsType(Arg1(m[i][2]))>>] IN
  IF \E i \in 1..Len(es) : es[i][1] = Bad THEN Bad
  ELSE IF \E i, j \in 1..Len(es) : i # j /\ AlikeE(es[i][1][1], es[j][1][1]) THEN Q
  ELSE <<"struct", [i \in 1..Len(es) |-> <<es[i][1][1], es[i][2], es[i][1][2]>>], FALSE>>

\* The integers of a range of floats. The order of a float that is close to some other number isn't known from its representation.
Number(E, lo, hi) ==
  LET a == Min2(lo, hi)
      b == Max2(lo, hi)
      close == lo > MaxFloat \/ hi > MaxFloat
      from == IF a = -MaxFloat THEN <<MinInt>> ELSE Get(E.round, a)[2]
      to == IF b = MaxFloat THEN <<MaxInt>> ELSE Get(E.round, b)[3]
      f == <<"floatr", a, b, TRUE>>
  IN  IF close THEN Q ELSE IF from = <<>> \/ to = <<>> \/ from[1] > to[1] THEN f ELSE <<"anyof", <<<<"intr", from[1], to[1], TRUE>>, f>>>>

Applied(E, w, ps) ==
  LET n == Len(ps)
      Sized(a, b) == n \in a..b
      T1 == n >= 1 /\ IsTypeT(ps[1])
      T2 == n >= 2 /\ IsTypeT(ps[2])
      Z(i) == n >= i => IsSz(ps[i])
      Lo(i) == IF n >= i THEN SizeOr(ps[i], 0) ELSE 0
      Hi(i) == IF n >= i THEN SizeOr(ps[i], Unbounded) ELSE Unbounded
      Sane(t) == IF t[1] = "bin" THEN <<"bin", Min2(t[2], t[3]), Max2(t[2], t[3])>> ELSE t
  IN
  CASE w = "Array" ->
         IF ~Sized(1, 3) THEN Bad
         ELSE IF T1 THEN (IF Z(2) /\ Z(3) THEN <<"arrz", ps[1], Lo(2), Hi(3)>> ELSE Bad)
         ELSE IF n < 3 /\ Z(1) /\ Z(2) THEN <<"arrz", AnyT, Lo(1), Hi(2)>> ELSE Bad
    [] w = "Binary" -> IF Sized(1, 2) /\ Z(1) /\ Z(2) THEN Sane(<<"bin", Lo(1), Hi(2)>>) ELSE Bad
    [] w = "Callable" -> Callable(ps)
    [] w = "Enum" ->
         LET flag == n > 0 /\ ps[n][1] = "val" /\ ps[n][2][1] = "b"
             m == IF flag THEN n - 1 ELSE n
             ci == flag /\ ps[n][2][2]
         IN  IF n = 0 \/ \E i \in 1..m : ~IsStrV(ps[i]) THEN Bad
             ELSE AnyOfT([i \in 1..m |-> IF ci THEN <<"ci", ps[i][2][2]>> ELSE <<"x", ps[i][2]>>])
    [] w = "Float" ->
         IF ~Sized(1, 2) \/ \E i \in 1..n : ~IsNumber(ps[i]) THEN Bad
         ELSE <<"floatr", FloatOr(E, ps[1], -MaxFloat), IF n = 2 THEN FloatOr(E, ps[2], MaxFloat) ELSE MaxFloat, TRUE>>
    [] w = "Number" ->
         IF ~Sized(1, 2) \/ \E i \in 1..n : ~IsNumber(ps[i]) THEN Bad
         ELSE Number(E, FloatOr(E, ps[1], -MaxFloat), IF n = 2 THEN FloatOr(E, ps[2], MaxFloat) ELSE MaxFloat)
    [] w = "Hash" ->
         IF ~Sized(1, 4) THEN Bad
         ELSE IF T1 THEN (IF T2 /\ Z(3) /\ Z(4) THEN <<"mapz", ps[1], ps[2], Lo(3), Hi(4)>> ELSE Bad)
         ELSE IF n < 3 /\ Z(1) /\ Z(2) THEN <<"mapz", AnyT, AnyT, Lo(1), Hi(2)>> ELSE Bad
    [] w = "Integer" ->
         IF Sized(1, 2) /\ Z(1) /\ Z(2) THEN <<"intr", IntOr(ps[1], MinInt), IF n = 2 THEN IntOr(ps[2], MaxInt) ELSE MaxInt, TRUE>> ELSE Bad
    [] w = "NotUndef" ->
         IF n # 1 \/ ~T1 THEN Bad
         ELSE IF ps[1] = AnyT THEN <<"not", <<"nil">>>>
         ELSE IF AcceptsNil(ps[1]) THEN <<"all", <<<<"not", <<"nil">>>>, ps[1]>>>> ELSE ps[1]
    [] w = "Optional" ->
         IF n # 1 \/ ~(T1 \/ IsStrV(ps[1])) THEN Bad
         ELSE LET t == AsType(ps[1]) IN IF AcceptsNil(t) THEN t ELSE <<"anyof", <<<<"nil">>, t>>>>
    [] w = "Pattern" ->
         IF n = 0 \/ \E i \in 1..n : RxOf(E, ps[i]) = <<-1>> THEN Bad ELSE AnyOfT([i \in 1..n |-> <<"rxp", RxOf(E, ps[i])>>])
    [] w = "Regexp" -> IF n # 1 \/ RxOf(E, ps[1]) = <<-1>> THEN Bad ELSE <<"x", <<"rx", RxOf(E, ps[1])>>>>
    [] w = "Sensitive" -> IF n = 0 THEN <<"sens", AnyT>> ELSE IF n = 1 /\ T1 THEN <<"sens", ps[1]>> ELSE Bad
    [] w = "String" ->
         IF n = 1 /\ IsStrV(ps[1]) THEN <<"x", ps[1][2]>>
         ELSE IF Sized(1, 2) /\ Z(1) /\ Z(2) THEN <<"strsz", Lo(1), Hi(2)>> ELSE Bad
    [] w = "Struct" -> IF n = 1 /\ ps[1][1] = "val" /\ ps[1][2][1] = "map" THEN Struct(ps[1][2][2]) ELSE Bad
    [] w = "Tuple" -> TupleOfArgs(ps)
    [] w = "Type" -> IF n = 1 /\ T1 THEN <<"meta", ps[1]>> ELSE Bad
    [] w = "Variant" -> IF TypesOnly(ps) THEN AnyOfT(ps) ELSE Bad

\* without arguments
Bare(w) ==
  CASE w = "Any" -> AnyT
    [] w = "Boolean" -> <<"bool">>
    [] w = "False" -> <<"x", <<"b", FALSE>>>>
    [] w = "True" -> <<"x", <<"b", TRUE>>>>
    [] w = "Timestamp" -> <<"time">>
    [] w = "Undef" -> <<"nil">>
    [] w = "Array" -> <<"arr">>
    [] w = "Binary" -> <<"bin", 0, Unbounded>>
    [] w = "Callable" -> <<"func", AnyTuple, AnyTuple>>
    [] w = "Float" -> <<"float">>
    [] w \in {"Enum", "Pattern", "String"} -> <<"string">>
    [] w = "Hash" -> <<"map">>
    [] w = "Integer" -> <<"int">>
    [] w = "Number" -> <<"anyof", <<<<"int">>, <<"float">>>>>>
    [] w = "NotUndef" -> <<"not", <<"nil">>>>
    [] w = "Optional" -> AnyT
    [] w = "Regexp" -> <<"regexp">>
    [] w = "Sensitive" -> <<"sens", AnyT>>
    [] w = "Struct" -> <<"struct", <<>>, TRUE>>
    [] w = "Tuple" -> AnyTuple
    [] w = "Type" -> <<"meta", AnyT>>
    [] w = "Variant" -> <<"anyof", <<>>>> \* of nothing

\* A call of a type makes a new instance. The details are in New.tla (P18)
Made(t, ps) ==
  LET n == Norm(t)
      one == Len(ps) = 1 /\ ps[1][1] = "val"
      v == ps[1][2]
  IN  IF Len(ps) = 0 /\ n[1] \in {"int", "intr", "float", "floatr", "string", "strsz", "bool"} THEN Val(<<"badcall">>)
      ELSE IF ~one THEN Q
      ELSE IF n[1] = "any" \/ (n[1] = "int" /\ v[1] = "i") \/ (n[1] = "float" /\ v[1] = "f") \/ (n[1] = "bool" /\ v[1] = "b") \/ (n[1] = "string" /\ v[1] = "s")
        THEN ps[1]
      ELSE IF n[1] = "intr" /\ v[1] = "i" THEN (IF v[2] \in n[2]..n[3] THEN ps[1] ELSE Val(<<"badcall">>))
      ELSE Q

-----------------------------------------------------------------------------
\* Parser. Results are as in Grammar.tla. The aliases a are [d |-> declarations, q |-> whether something isn't told].

RECURSIVE PElement(_, _, _, _)
RECURSIVE PList(_, _, _, _, _, _)
RECURSIVE PHash(_, _, _, _, _)

Loose(a) == [a EXCEPT !.q = TRUE]
IsRocket(T, i) == Tok(T, i).k = "=>"

\* The rest of a list of elements and entries, after the left bracket or a comma. Consecutive entries make a map. acc are
\* the elements so far, run is <<>> or <<entries>> of the map that is being made.
Flush(acc, run) == IF run = <<>> THEN acc ELSE Append(acc, Val(<<"map", run>>))
PList(E, T, i, a, close, st) ==
  LET acc == st[1]
      run == st[2]
  IN
  IF IsC(T, i, close) THEN Okay(i + 1, Flush(acc, run), a)
  ELSE LET e == PElement(E, T, i, a) IN
    IF ~e.ok THEN e
    ELSE IF IsRocket(T, e.i) /\ Part(e.t, "badcall") THEN Sem(e.i)
    ELSE IF IsRocket(T, e.i) THEN
      LET v == PElement(E, T, e.i + 1, e.a)
          k == Final(Held1(e.t)) \* a key is resolved at once
          w == Held1(v.t)
          ns == <<acc, PutIn(run, k, w)>>
          b == IF PartV(k, "ref") \/ PartV(w, "ref") THEN Loose(v.a) ELSE v.a
      IN  IF ~v.ok THEN v
          ELSE IF IsC(T, v.i, close) THEN Okay(v.i + 1, Flush(ns[1], ns[2]), b)
          ELSE IF IsC(T, v.i, COMMA) THEN PList(E, T, v.i + 1, b, close, ns)
          ELSE Fail(v.i)
    ELSE LET ns == <<Append(Flush(acc, run), e.t), <<>>>> IN
      IF IsC(T, e.i, close) THEN Okay(e.i + 1, ns[1], e.a)
      ELSE IF IsC(T, e.i, COMMA) THEN PList(E, T, e.i + 1, e.a, close, ns)
      ELSE Fail(e.i)

PHash(E, T, i, a, m) ==
  IF IsC(T, i, RBRACE) THEN Okay(i + 1, Val(<<"map", m>>), a)
  ELSE LET k == PElement(E, T, i, a) IN
    IF ~k.ok THEN k
    ELSE IF ~IsRocket(T, k.i) THEN Fail(k.i)
    ELSE IF Part(k.t, "badcall") THEN Sem(k.i)
    ELSE LET v == PElement(E, T, k.i + 1, k.a)
             n == PutIn(m, Final(Held1(k.t)), Held1(v.t))
             \* what a replaced value refers to isn't told
             b == IF PartV(Held1(k.t), "ref") \/ (Len(n) = Len(m) /\ PartV(<<"map", m>>, "ref")) THEN Loose(v.a) ELSE v.a
         IN  IF ~v.ok THEN v
             ELSE IF IsC(T, v.i, RBRACE) THEN Okay(v.i + 1, Val(<<"map", n>>), b)
             ELSE IF IsC(T, v.i, COMMA) THEN PHash(E, T, v.i + 1, b, n)
             ELSE Fail(v.i)

\* declaration of an alias, at the name
PDeclare(E, T, i, a) ==
  LET n == DgoName(Tok(T, i).s, TRUE) IN
  IF ~IsC(T, i + 1, EQUAL) THEN Fail(i + 1)
  ELSE IF Known(Tok(T, i).s) \/ n \in {Word.data, Word.richdata} \/ Lookup(a.d, n) # 0 THEN Sem(i)
  ELSE LET r == PElement(E, T, i + 2, [a EXCEPT !.d = Append(a.d, <<n, <<"pending">>>>)]) IN
       IF ~r.ok THEN r
       ELSE IF Part(r.t, "made") THEN Okay(r.i, Q, Loose([r.a EXCEPT !.d[Lookup(r.a.d, n)] = <<n, Q>>]))
       ELSE IF ~IsTypeT(r.t) THEN Sem(r.i)
       ELSE LET at == Lookup(r.a.d, n) IN Okay(r.i, r.t, [r.a EXCEPT !.d[at] = <<n, r.t>>])

\* what a name that isn't a known type means
Named(n, a) ==
  LET at == Lookup(a.d, n) IN
  IF n \in {Word.data, Word.richdata} THEN Q
  ELSE IF at = 0 \/ a.d[at][2] = <<"pending">> THEN <<"ref", n>> ELSE a.d[at][2]

\* a type, at its name
PType(E, T, i, a) ==
  LET s == Tok(T, i).s
      j == i + 1
      w == IF Known(s) THEN KeyOf(s) ELSE "other"
  IN  IF w = "other" THEN LET t == Named(DgoName(s, TRUE), a) IN Okay(j, t, IF t = Q THEN Loose(a) ELSE a)
      ELSE IF w \in Plain0 \/ ~IsC(T, j, LBRACK) THEN Okay(j, Bare(w), a)
      ELSE LET ps == PList(E, T, j + 1, a, RBRACK, <<<<>>, <<>>>>) IN
        IF ~ps.ok THEN ps
        ELSE IF \E k \in 1..Len(ps.t) : Part(ps.t[k], "?") \/ Part(ps.t[k], "made") THEN Okay(ps.i, Q, Loose(ps.a))
        ELSE LET t == Applied(E, w, ps.t) IN
          IF t = Bad THEN Sem(ps.i) ELSE IF Part(t, "?") THEN Okay(ps.i, Q, Loose(ps.a)) ELSE Okay(ps.i, t, ps.a)

PElement(E, T, i, a) ==
  LET t == Tok(T, i)
      j == i + 1
  IN
  CASE IsC(T, i, LBRACE) -> PHash(E, T, j, a, <<>>)
    [] IsC(T, i, LBRACK) ->
         LET r == PList(E, T, j, a, RBRACK, <<<<>>, <<>>>>) IN
         IF r.ok THEN Okay(r.i, Val(<<"arr", [k \in 1..Len(r.t) |-> Held1(r.t[k])]>>), r.a) ELSE r
    [] t.k \in {"int", "float"} ->
         LET n == NumOf(E, t.s, IF t.k = "int" THEN 2 ELSE 3) IN
         IF Illegal(n) THEN Sem(j) ELSE Okay(j, Val(<<IF t.k = "int" THEN "i" ELSE "f", n[1]>>), a)
    [] t.k = "str" -> Okay(j, Str(t.s), a)
    [] t.k = "rx" -> IF RxOk(E, t.s) THEN Okay(j, Val(<<"rx", t.s>>), a) ELSE Sem(j)
    [] t.k = "id" ->
         IF t.s = Word.true THEN Okay(j, Val(<<"b", TRUE>>), a)
         ELSE IF t.s = Word.false THEN Okay(j, Val(<<"b", FALSE>>), a)
         ELSE IF t.s = Word.undef THEN Okay(j, Val(<<"n">>), a)
         ELSE IF t.s = Word.type /\ Tok(T, j).k = "name" THEN PDeclare(E, T, j, a)
         ELSE Okay(j, Str(t.s), a)
    [] t.k = "name" ->
         LET r == PType(E, T, i, a) IN
         IF ~r.ok \/ ~IsC(T, r.i, LPAREN) THEN r
         ELSE LET ps == PList(E, T, r.i + 1, r.a, RPAREN, <<<<>>, <<>>>>) IN
           IF ~ps.ok THEN ps
           ELSE LET Told(u) == ~Part(u, "?") /\ ~Part(u, "ref") /\ ~Part(u, "made")
                    told == Told(r.t) /\ (\A k \in 1..Len(ps.t) : Told(ps.t[k])) /\ Made(r.t, ps.t) # Q
                IN
             IF told THEN Okay(ps.i, Val(<<"made", Made(r.t, ps.t)[2]>>), ps.a) ELSE Okay(ps.i, Q, Loose(ps.a))
    [] OTHER -> Fail(i)

\* References and calls replaced. A reference to something that isn't declared is <<"unresolved">>, and one that is recursive
\* is <<"?">>
RECURSIVE ResV(_, _, _)
RECURSIVE ResP(_, _, _)
ResT(t, a) == ResP(t, a, {})
ResV(v, a, seen) ==
  CASE v[1] = "arr" -> <<"arr", [i \in 1..Len(v[2]) |-> ResV(v[2][i], a, seen)]>>
    [] v[1] = "map" -> <<"map", [i \in 1..Len(v[2]) |-> <<ResV(v[2][i][1], a, seen), ResV(v[2][i][2], a, seen)>>]>>
    [] v[1] = "t" -> <<"t", ResP(v[2], a, seen)>>
    [] v[1] = "made" -> v[2]
    [] OTHER -> v
ResP(t, a, seen) ==
  LET S(ts) == [i \in 1..Len(ts) |-> ResP(ts[i], a, seen)] IN
  CASE t[1] = "ref" ->
         LET n == Lookup(a, t[2]) IN
         IF n = 0 THEN <<"unresolved">> ELSE IF t[2] \in seen THEN Q ELSE ResP(a[n][2], a, seen \cup {t[2]})
    [] t[1] = "arrz" -> <<"arrz", ResP(t[2], a, seen), t[3], t[4]>>
    [] t[1] = "mapz" -> <<"mapz", ResP(t[2], a, seen), ResP(t[3], a, seen), t[4], t[5]>>
    [] t[1] = "tup" -> <<"tup", S(t[2]), t[3]>>
    [] t[1] = "struct" -> <<"struct", [i \in 1..Len(t[2]) |-> <<t[2][i][1], ResP(t[2][i][2], a, seen), t[2][i][3]>>], t[3]>>
    [] t[1] \in {"not", "meta", "sens"} -> <<t[1], ResP(t[2], a, seen)>>
    [] t[1] = "func" -> <<"func", ResP(t[2], a, seen), ResP(t[3], a, seen)>>
    [] t[1] \in {"all", "anyof", "one"} -> <<t[1], S(t[2])>>
    [] t[1] \in {"x", "val"} -> <<t[1], ResV(t[2], a, seen)>>
    [] OTHER -> t

\* the whole text
PDenotes(E, s) ==
  LET T == PLex(s, 1, <<>>)
      k == PElement(E, T, 1, [d |-> <<>>, q |-> FALSE])
      v == PElement(E, T, k.i + 1, k.a)
      entry == k.ok /\ IsRocket(T, k.i)
      r0 == IF ~entry THEN k
            ELSE IF Part(k.t, "badcall") THEN Sem(k.i)
            ELSE IF v.ok THEN Okay(v.i, Val(<<"map", <<<<Final(Held1(k.t)), Held1(v.t)>>>>>>), IF PartV(Held1(k.t), "ref") \/ PartV(Held1(v.t), "ref") THEN Loose(v.a) ELSE v.a)
            ELSE v
      r == IF r0.ok /\ Tok(T, r0.i).k # "eot" THEN Fail(r0.i) ELSE r0
      t == ResT(r.t, r.a.d)
      loose == r.a.q \/ Part(t, "?")
      m == Min2(r.i, Len(T))
      Odd(u) == (u.k = "c" /\ u.s[1] = LPAREN) \/ (u.k = "name" /\ (~Known(u.s) \/ (u.s = Name["Number"] /\ \E x \in 1..Len(E.round) : E.round[x][1] > MaxFloat))) \/ (u.k = "int" /\ u.s[1] = 45) \/ u.s = Word.default
  IN  [T |-> T,
       early |-> \E n \in 1..(m - 1) : Odd(T[n]), \* something that isn't told may have been refused earlier on
       r |-> IF ~r.ok THEN r
             ELSE IF ~loose /\ (Part(t, "unresolved") \/ Part(t, "badcall") \/ \E n \in 1..Len(r.a.d) : Part(ResT(r.a.d[n][2], r.a.d), "unresolved")) THEN Sem(r.i)
             ELSE Okay(r.i, t, r.a),
       loose |-> r.ok /\ loose]
=============================================================================
