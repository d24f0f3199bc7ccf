------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The type language: what each text denotes (P11), and when the string    *)
(* form of a type denotes that type (P10). Types are terms as in Types.tla *)
(* with two differences: a pattern is <<"rxp", bytes>>, and what isn't a   *)
(* type is <<"val", value>>. The term <<"?">> stands for something that    *)
(* the specification says nothing about.                                   *)
(* A text is a sequence of bytes. E.nums has the numeric value of each     *)
(* numeral that occurs in the text: <<bytes, as integer, as float, float   *)
(* of integer>>, where a numeral that isn't legal has the value <<>>.      *)
(* E.rx tells what regular expressions are valid: <<bytes, BOOLEAN>>.      *)
(***************************************************************************)
EXTENDS Types

CharAt(s, i) == IF i <= Len(s) THEN s[i] ELSE 0

IsDigitC(c) == c \in 48..57
IsLetterC(c) == c \in 65..90 \/ c \in 97..122
IsHexC(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
IsIdStart(c) == IsLetterC(c) \/ c = 36 \/ c = 95
IsIdC(c) == IsIdStart(c) \/ IsDigitC(c)
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Dot == 46

\* the index of the first character at or after i that isn't a digit (hexadecimal digit, identifier character)
RECURSIVE EndDigits(_, _)
EndDigits(s, i) == IF IsDigitC(CharAt(s, i)) THEN EndDigits(s, i + 1) ELSE i
RECURSIVE EndHex(_, _)
EndHex(s, i) == IF IsHexC(CharAt(s, i)) THEN EndHex(s, i + 1) ELSE i
RECURSIVE EndId(_, _)
EndId(s, i) == IF IsIdC(CharAt(s, i)) THEN EndId(s, i + 1) ELSE i

RECURSIVE EndChar(_, _)
EndChar(s, i) == IF CharAt(s, i) \in 128..191 THEN EndChar(s, i + 1) ELSE i

\* A token has a kind k, a value s, the index of its first character p and the index of what follows it q. A character
\* that is a token of its own has kind "c".
Token(k, s, p, q) == [k |-> k, s |-> s, p |-> p, q |-> q]
BadToken(p, q) == Token("err", <<>>, p, q + 1) \* q is a character that isn't acceptable

-----------------------------------------------------------------------------
\* Lexer

\* What follows e or E. The digits of the exponent can't be followed by a letter or a dot, other than two dots.
Exponent(s, i) ==
  LET d == IF CharAt(s, i) \in {43, 45} THEN i + 1 ELSE i
      j == EndDigits(s, d)
  IN  IF ~IsDigitC(CharAt(s, d)) THEN <<"err", d>>
      ELSE IF CharAt(s, j) = Dot /\ CharAt(s, j + 1) = Dot THEN <<"float", j>>
      ELSE IF CharAt(s, j) = Dot \/ IsLetterC(CharAt(s, j)) THEN <<"err", j>>
      ELSE <<"float", j>>
\* what follows the dot of a float
Fraction(s, i) ==
  LET j == EndDigits(s, i)
      c == CharAt(s, j)
  IN  IF ~IsDigitC(CharAt(s, i)) THEN <<"err", i>>
      ELSE IF c \in {69, 101} THEN Exponent(s, j + 1)
      ELSE IF c \in {88, 120} \/ (c = Dot /\ CharAt(s, j + 1) # Dot) THEN <<"err", j>>
      ELSE <<"float", j>>
\* a numeral whose first digit is at i. Yields its kind and the index of what follows it.
Numeral(s, i) ==
  LET j == EndDigits(s, i)
      c == CharAt(s, j)
  IN  IF c \in {69, 101} THEN Exponent(s, j + 1)
      ELSE IF c \in {88, 120} THEN
        IF s[i] = 48 /\ IsHexC(CharAt(s, j + 1)) THEN <<"int", EndHex(s, j + 1)>> ELSE <<"err", j + 1>>
      ELSE IF c = Dot /\ CharAt(s, j + 1) # Dot THEN Fraction(s, j + 1)
      ELSE <<"int", j>>
NumToken(s, p, d) ==
  LET n == Numeral(s, d) IN
  IF n[1] = "err" THEN BadToken(p, n[2])
  ELSE Token(n[1], (IF s[p] = 45 THEN <<45>> ELSE <<>>) \o SubSeq(s, d, n[2] - 1), p, n[2])

Low(n) == 128 + n - 64 * (n \div 64)
Utf8(n) ==
  IF n < 128 THEN <<n>>
  ELSE IF n < 2048 THEN <<192 + n \div 64, Low(n)>>
  ELSE IF n < 65536 THEN <<224 + n \div 4096, Low(n \div 64), Low(n)>>
  ELSE <<240 + n \div 262144, Low(n \div 4096), Low(n \div 64), Low(n)>>

RECURSIVE HexNum(_, _, _)
HexNum(s, i, n) == IF n = 0 THEN 0 ELSE HexNum(s, i, n - 1) * 16 + HexVal(s[i + n - 1])
AllHex(s, i, n) == \A k \in i..(i + n - 1) : IsHexC(CharAt(s, k))
Rune(n) == IF n > 1114111 \/ n \in 55296..57343 THEN <<>> ELSE Utf8(n)

Simple == [c \in {97, 98, 102, 110, 114, 116, 118, 92} |->
            CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11 [] c = 92 -> 92]

RECURSIVE QuotedBy(_, _, _, _, _)
\* the rest of a quoted string from i. acc is what has been found so far, p is where it started, d is the character that
\* ends it
QuotedBy(d, s, i, acc, p) ==
  LET c == CharAt(s, i) IN
  IF c = 0 \/ c = 10 THEN BadToken(p, i)
  ELSE IF c = d THEN Token("str", acc, p, i + 1)
  ELSE IF c # 92 THEN QuotedBy(d, s, i + 1, Append(acc, c), p)
  ELSE LET e == CharAt(s, i + 1) IN
    IF e = d THEN QuotedBy(d, s, i + 2, Append(acc, d), p)
    ELSE IF e \in DOMAIN Simple THEN QuotedBy(d, s, i + 2, Append(acc, Simple[e]), p)
    ELSE IF e = 120 /\ AllHex(s, i + 2, 2) THEN QuotedBy(d, s, i + 4, Append(acc, HexNum(s, i + 2, 2)), p)
    ELSE IF e = 117 /\ AllHex(s, i + 2, 4) /\ Rune(HexNum(s, i + 2, 4)) # <<>> THEN QuotedBy(d, s, i + 6, acc \o Rune(HexNum(s, i + 2, 4)), p)
    ELSE IF e = 85 /\ AllHex(s, i + 2, 8) /\ CharAt(s, i + 2) = 48 /\ CharAt(s, i + 3) = 48 /\ Rune(HexNum(s, i + 4, 6)) # <<>>
      THEN QuotedBy(d, s, i + 10, acc \o Rune(HexNum(s, i + 4, 6)), p)
    ELSE BadToken(p, Min2(i + 10, Len(s) + 1))
Quoted(s, i, acc, p) == QuotedBy(34, s, i, acc, p)

RECURSIVE Raw(_, _, _)
Raw(s, i, p) ==
  LET c == CharAt(s, i) IN
  IF c = 0 THEN BadToken(p, i) ELSE IF c = 96 THEN Token("str", SubSeq(s, p + 1, i - 1), p, i + 1) ELSE Raw(s, i + 1, p)

RECURSIVE Slashed(_, _, _, _)
\* Only a slash has to be escaped in a regular expression. Other escapes are a part of it.
Slashed(s, i, acc, p) ==
  LET c == CharAt(s, i) IN
  IF c = 0 \/ c = 10 THEN BadToken(p, i)
  ELSE IF c = 47 THEN Token("rx", acc, p, i + 1)
  ELSE IF c # 92 THEN Slashed(s, i + 1, Append(acc, c), p)
  ELSE LET e == CharAt(s, i + 1) IN
    IF e = 0 THEN BadToken(p, i + 1)
    ELSE IF e = 47 THEN Slashed(s, i + 2, Append(acc, 47), p)
    ELSE Slashed(s, i + 2, acc \o <<92, e>>, p)

\* the token that starts at or after i
RECURSIVE TokenAt(_, _)
TokenAt(s, i) ==
  LET c == CharAt(s, i) IN
  IF i > Len(s) THEN Token("eot", <<>>, i, i)
  ELSE IF c \in {32, 9, 10} THEN TokenAt(s, i + 1)
  ELSE IF c = 96 THEN Raw(s, i + 1, i)
  ELSE IF c = 34 THEN Quoted(s, i + 1, <<>>, i)
  ELSE IF c = 47 THEN Slashed(s, i + 1, <<>>, i)
  ELSE IF c = Dot /\ CharAt(s, i + 1) = Dot THEN
    IF CharAt(s, i + 2) = Dot THEN Token("...", <<>>, i, i + 3) ELSE Token("..", <<>>, i, i + 2)
  ELSE IF c \in {43, 45} THEN IF IsDigitC(CharAt(s, i + 1)) THEN NumToken(s, i, i + 1) ELSE BadToken(i, i + 1)
  ELSE IF IsDigitC(c) THEN NumToken(s, i, i)
  ELSE IF IsIdStart(c) THEN Token("id", SubSeq(s, i, EndId(s, i) - 1), i, EndId(s, i))
  ELSE IF c < 32 THEN BadToken(i, i)
  ELSE Token("c", <<c>>, i, IF c < 128 THEN i + 1 ELSE EndChar(s, i + 1))

\* all tokens. The last one is the end of the text or an error
RECURSIVE Lex(_, _, _)
Lex(s, i, acc) ==
  LET t == TokenAt(s, i) IN IF t.k \in {"eot", "err"} THEN Append(acc, t) ELSE Lex(s, t.q, Append(acc, t))

-----------------------------------------------------------------------------
\* Parser. Each production yields [ok, i, t, a, sem]: the index of the next token, the term, and the declared aliases as a
\* sequence of <<name, term>>. When it isn't ok, then i is the token that isn't acceptable, unless sem
\* is true. Then what has been read so far is not meaningful.

AnyT == <<"any">>
MinInt == -400000000
MaxInt == 399999996
MaxFloat == 600000000

Okay(i, t, a) == [ok |-> TRUE, i |-> i, t |-> t, a |-> a, sem |-> FALSE]
Fail(i) == [ok |-> FALSE, i |-> i, t |-> <<>>, a |-> <<>>, sem |-> FALSE]
Sem(i) == [ok |-> FALSE, i |-> i, t |-> <<>>, a |-> <<>>, sem |-> TRUE]

Tok(T, i) == T[Min2(i, Len(T))]
IsC(T, i, c) == Tok(T, i).k = "c" /\ Tok(T, i).s[1] = c

BAR == 124
XOR == 94
AMP == 38
NOT == 33
TILDE == 126
LBRACE == 123
RBRACE == 125
LBRACK == 91
RBRACK == 93
LPAREN == 40
RPAREN == 41
LT == 60
GT == 62
COMMA == 44
COLON == 58
QUEST == 63
EQUAL == 61

\* what may follow an optional operand
AtEnd(T, i) == Tok(T, i).k = "eot" \/ (Tok(T, i).k = "c" /\ Tok(T, i).s[1] \in {RPAREN, RBRACE, RBRACK, COMMA, COLON, QUEST, BAR, AMP, XOR, Dot})

Op == <<BAR, XOR, AMP>>
OpKind == <<"anyof", "one", "all">>

Keywords == [any |-> <<97, 110, 121>>, bool |-> <<98, 111, 111, 108>>, int |-> <<105, 110, 116>>, float |-> <<102, 108, 111, 97, 116>>,
  dgo |-> <<100, 103, 111>>, binary |-> <<98, 105, 110, 97, 114, 121>>, true |-> <<116, 114, 117, 101>>, false |-> <<102, 97, 108, 115, 101>>,
  nil |-> <<110, 105, 108>>, map |-> <<109, 97, 112>>, type |-> <<116, 121, 112, 101>>, string |-> <<115, 116, 114, 105, 110, 103>>,
  sensitive |-> <<115, 101, 110, 115, 105, 116, 105, 118, 101>>, func |-> <<102, 117, 110, 99>>]
Reserved == {Keywords[k] : k \in DOMAIN Keywords}

\* Type of a value
RECURSIVE TypeOf(_)
TypeOf(v) ==
  CASE v[1] = "n" -> <<"nil">>
    [] v[1] = "t" -> <<"meta", v[2]>>
    [] v[1] = "sens" -> <<"?">> \* the sensitive type of the generic type of what it holds
    [] OTHER -> <<"x", v>>
AsType(t) == IF t[1] = "val" THEN TypeOf(t[2]) ELSE t

\* the specification says nothing about the value
RECURSIVE Unknown(_)
Unknown(v) == v[1] = "?" \/ (v[1] = "sens" /\ Unknown(v[2]))

Lookup(s, key) == LET at == {i \in 1..Len(s) : s[i][1] = key} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i >= j

\* normal form: the same type can be described in several ways
RECURSIVE Norm(_)
NormS(ts) == [i \in 1..Len(ts) |-> Norm(ts[i])]
XVal(t) == IF t[1] = "nil" THEN <<"n">> ELSE t[2]
IsX(t) == t[1] \in {"x", "nil"}
RECURSIVE PutAll(_, _)
\* the entries of a map literal. A key that occurs twice has the last value
PutAll(m, es) ==
  IF es = <<>> THEN m
  ELSE LET at == {i \in 1..Len(m) : Eq(m[i][1], es[1][1])} IN
       PutAll(IF at = {} THEN Append(m, es[1]) ELSE [i \in 1..Len(m) |-> IF i \in at THEN <<m[i][1], es[1][2]>> ELSE m[i]], Tail(es))
Norm(t) ==
  CASE t[1] = "intr" ->
         LET lo == Min2(t[2], t[3])
             hi == Max2(t[2], t[3])
         IN IF lo = hi THEN <<"x", <<"i", lo>>>> ELSE IF lo = MinInt /\ hi = MaxInt /\ t[4] THEN <<"int">> ELSE <<"intr", lo, hi, t[4]>>
    [] t[1] = "floatr" ->
         LET lo == Min2(t[2], t[3])
             hi == Max2(t[2], t[3])
         IN IF lo = hi THEN <<"x", <<"f", lo>>>> ELSE IF lo = -MaxFloat /\ hi = MaxFloat /\ t[4] THEN <<"float">> ELSE <<"floatr", lo, hi, t[4]>>
    [] t[1] = "strsz" -> LET lo == Min2(t[2], t[3]) hi == Max2(t[2], t[3]) IN IF lo = 0 /\ hi = Unbounded THEN <<"string">> ELSE <<"strsz", lo, hi>>
    [] t[1] = "arr" -> <<"arrz", AnyT, 0, Unbounded>>
    [] t[1] = "map" -> <<"mapz", AnyT, AnyT, 0, Unbounded>>
    [] t[1] = "arrz" ->
         LET e == Norm(t[2])
             lo == Min2(t[3], t[4])
             hi == Max2(t[3], t[4])
         IN IF lo = 1 /\ hi = 1 /\ IsX(e) THEN <<"x", <<"arr", <<XVal(e)>>>>>> ELSE <<"arrz", e, lo, hi>>
    [] t[1] = "mapz" -> <<"mapz", Norm(t[2]), Norm(t[3]), Min2(t[4], t[5]), Max2(t[4], t[5])>>
    [] t[1] = "tup" ->
         LET es == NormS(t[2]) IN
         IF ~t[3] /\ Len(es) > 0 /\ \A i \in 1..Len(es) : IsX(es[i]) THEN <<"x", <<"arr", [i \in 1..Len(es) |-> XVal(es[i])]>>>>
         ELSE <<"tup", es, t[3]>>
    [] t[1] = "struct" -> \* each entry has a key value, a type, and a flag that tells if it's required
         LET es == [i \in 1..Len(t[2]) |-> <<t[2][i][1], Norm(t[2][i][2]), t[2][i][3]>>] IN
         IF ~t[3] /\ \A i \in 1..Len(es) : IsX(es[i][2]) /\ es[i][3]
         THEN <<"x", <<"map", PutAll(<<>>, [i \in 1..Len(es) |-> <<es[i][1], XVal(es[i][2])>>])>>>>
         ELSE <<"struct", es, t[3]>>
    [] t[1] = "not" -> LET n == Norm(t[2]) IN IF n[1] = "not" THEN n[2] ELSE <<"not", n>>
    [] t[1] \in {"meta", "sens"} -> <<t[1], Norm(t[2])>>
    [] t[1] = "func" -> <<"func", Norm(t[2]), Norm(t[3])>>
    [] t[1] \in {"all", "anyof", "one"} -> <<t[1], NormS(t[2])>>
    [] t[1] = "allv" -> <<"all", [i \in 1..Len(t[2]) |-> <<"x", t[2][i]>>]>>
    [] t[1] = "metameta" -> <<"meta", <<"meta", AnyT>>>>
    \* case is told for ASCII only here
    [] t[1] = "ci" -> <<"ci", IF \A i \in 1..Len(t[2]) : t[2][i] < 128 THEN Fold(t[2]) ELSE <<0>>>>
    [] OTHER -> t

\* The type with references replaced. A reference to something that isn't declared is <<"unresolved">>, and one that is
\* recursive is <<"?">>
RECURSIVE Res(_, _, _)
Res(t, a, seen) ==
  LET S(ts) == [i \in 1..Len(ts) |-> Res(ts[i], a, seen)] IN
  CASE t[1] = "ref" ->
         LET n == Lookup(a, t[2]) IN
         IF n = 0 THEN <<"unresolved">> ELSE IF t[2] \in seen THEN <<"?">> ELSE Res(a[n][2], a, seen \cup {t[2]})
    [] t[1] = "arrz" -> <<"arrz", Res(t[2], a, seen), t[3], t[4]>>
    [] t[1] = "mapz" -> <<"mapz", Res(t[2], a, seen), Res(t[3], a, seen), t[4], t[5]>>
    [] t[1] = "tup" -> <<"tup", S(t[2]), t[3]>>
    [] t[1] = "ustruct" -> \* a struct with keys that are types
         LET ks == [i \in 1..Len(t[2]) |-> Norm(Res(t[2][i][1], a, seen))]
             vs == [i \in 1..Len(t[2]) |-> Res(t[2][i][2], a, seen)]
         IN  IF \E i \in 1..Len(ks) : ks[i][1] = "unresolved" THEN <<"unresolved">>
             ELSE IF \E i \in 1..Len(ks) : ks[i][1] = "?" THEN <<"?">>
             ELSE IF \E i \in 1..Len(ks) : ~IsX(ks[i]) THEN <<"badkey">>
             ELSE <<"struct", [i \in 1..Len(ks) |-> <<XVal(ks[i]), vs[i], t[2][i][3]>>], t[3]>>
    [] t[1] \in {"not", "meta", "sens"} -> <<t[1], Res(t[2], a, seen)>>
    [] t[1] = "func" -> <<"func", Res(t[2], a, seen), Res(t[3], a, seen)>>
    [] t[1] \in {"all", "anyof", "one"} -> <<t[1], S(t[2])>>
    [] OTHER -> t

RECURSIVE Mentions(_, _)
\* some part of t is of kind k
Mentions(t, k) ==
  \/ t[1] = k
  \/ CASE t[1] \in {"arrz", "not", "meta", "sens"} -> Mentions(t[2], k)
       [] t[1] \in {"mapz", "func"} -> Mentions(t[2], k) \/ Mentions(t[3], k)
       [] t[1] \in {"tup", "all", "anyof", "one"} -> \E i \in 1..Len(t[2]) : Mentions(t[2][i], k)
       [] t[1] = "struct" -> \E i \in 1..Len(t[2]) : Mentions(t[2][i][2], k)
       [] OTHER -> FALSE

\* The size that an integer denotes
SizeOf(n) == IF n < 0 THEN 0 ELSE IF n >= 90000000 THEN Unbounded ELSE n \div 4
IsInt(t) == t[1] = "val" /\ t[2][1] = "i"
\* The bounds that parameters denote, <<>> if they are illegal
Bounds(ps) ==
  CASE Len(ps) = 0 -> <<0, Unbounded>>
    [] Len(ps) = 1 /\ IsInt(ps[1]) -> <<SizeOf(ps[1][2][2]), Unbounded>>
    [] Len(ps) = 2 /\ IsInt(ps[1]) /\ IsInt(ps[2]) -> <<SizeOf(ps[1][2][2]), SizeOf(ps[2][2][2])>>
    [] OTHER -> <<>>

\* the value of a numeral: n is 2 for integer, 3 for float, 4 for float of integer
NumOf(E, s, n) == LET i == Lookup(E.nums, s) IN E.nums[i][n]
Illegal(x) == x = <<>>

RangeT(kind, lo, hi, incl, i, a) == IF lo = hi /\ ~incl THEN Sem(i) ELSE Okay(i, Norm(<<kind, lo, hi, incl>>), a)

RECURSIVE Expr(_, _, _, _, _)
RECURSIVE ChainRest(_, _, _, _, _, _)
RECURSIVE Unary(_, _, _, _)
RECURSIVE Primary(_, _, _, _)
RECURSIVE Params(_, _, _, _, _)
RECURSIVE ListRest(_, _, _, _, _, _, _)
RECURSIVE Element(_, _, _, _, _)

\* alternatives (level 1), exclusive alternatives (2), conjunctions (3) and what they consist of (4)
Expr(E, T, i, a, level) ==
  IF level = 4 THEN Unary(E, T, i, a)
  ELSE LET f == Expr(E, T, i, a, level + 1) IN
       IF ~f.ok \/ ~IsC(T, f.i, Op[level]) THEN f ELSE ChainRest(E, T, f.i, f.a, level, <<AsType(f.t)>>)
\* at an operator
ChainRest(E, T, i, a, level, ts) ==
  LET g == Expr(E, T, i + 1, a, level + 1)
      us == Append(ts, AsType(g.t))
  IN  IF ~g.ok THEN g ELSE IF IsC(T, g.i, Op[level]) THEN ChainRest(E, T, g.i, g.a, level, us) ELSE Okay(g.i, <<OpKind[level], us>>, g.a)

Unary(E, T, i, a) ==
  IF IsC(T, i, NOT) THEN LET r == Unary(E, T, i + 1, a) IN IF r.ok THEN Okay(r.i, <<"not", AsType(r.t)>>, r.a) ELSE r
  ELSE IF IsC(T, i, TILDE) THEN
    LET r == Primary(E, T, i + 1, a) IN
    IF ~r.ok THEN r ELSE IF r.t[1] = "val" /\ r.t[2][1] = "s" THEN Okay(r.i, <<"ci", r.t[2][2]>>, r.a) ELSE Sem(r.i)
  ELSE Primary(E, T, i, a)

\* the rest of a list of parameters, after the left bracket or a comma. The term is the sequence of parameters
Params(E, T, i, a, ps) ==
  IF IsC(T, i, RBRACK) THEN Okay(i + 1, ps, a)
  ELSE LET e == Element(E, T, i, a, 0)
           qs == Append(ps, e.t)
       IN  IF ~e.ok THEN e
           ELSE IF IsC(T, e.i, RBRACK) THEN Okay(e.i + 1, qs, e.a)
           ELSE IF IsC(T, e.i, COMMA) THEN Params(E, T, e.i + 1, e.a, qs)
           ELSE Fail(e.i)

\* An element or an entry. mode is 0 where entries aren't allowed, 2 where only entries are, and 1 where both are. An entry
\* is <<"entry", key, value, required>>
Element(E, T, i, a, mode) ==
  LET named == Tok(T, i).k = "id" /\ (IsC(T, i + 1, COLON) \/ IsC(T, i + 1, QUEST))
      k == IF named THEN Okay(i + 1, <<"val", <<"s", Tok(T, i).s>>>>, a) ELSE Expr(E, T, i, a, 1)
  IN  IF named /\ mode = 0 THEN Sem(i + 1)
      ELSE IF ~k.ok THEN k
      ELSE LET opt == IsC(T, k.i, QUEST)
               j == IF opt THEN k.i + 1 ELSE k.i
           IN  IF opt /\ ~IsC(T, j, COLON) THEN Fail(j)
               ELSE IF ~IsC(T, j, COLON) THEN IF mode = 2 THEN Sem(j) ELSE k
               ELSE IF mode = 0 THEN Sem(j)
               ELSE LET v == Expr(E, T, j + 1, k.a, 1) IN
                    IF v.ok THEN Okay(v.i, <<"entry", AsType(k.t), AsType(v.t), ~opt>>, v.a) ELSE v

StructOf(es, additional) == <<"ustruct", [i \in 1..Len(es) |-> <<es[i][2], es[i][3], es[i][4]>>], additional>>
TupleOf(es, variadic) == <<"tup", [i \in 1..Len(es) |-> AsType(es[i])], variadic>>

\* the rest of a tuple, struct, or list of arguments
ListRest(E, T, i, a, close, es, mode) ==
  LET Closed(j, b, more, m, ad) == Okay(j, IF m = 0 \/ (m = 1 /\ more # <<>>) THEN TupleOf(more, ad) ELSE StructOf(more, ad), b) IN
  IF Tok(T, i).k = "..." THEN
    IF IsC(T, i + 1, close) /\ mode # 0 THEN Okay(i + 2, StructOf(es, TRUE), a)
    ELSE IF mode = 2 THEN Fail(i + 1)
    ELSE LET e == Expr(E, T, i + 1, a, 1) IN
         IF ~e.ok THEN e ELSE IF IsC(T, e.i, close) THEN Okay(e.i + 1, TupleOf(Append(es, e.t), TRUE), e.a) ELSE Fail(e.i)
  ELSE IF IsC(T, i, close) THEN Closed(i + 1, a, es, mode, FALSE)
  ELSE LET e == Element(E, T, i, a, mode) IN
       IF ~e.ok THEN e
       ELSE LET m == IF e.t[1] = "entry" THEN 2 ELSE 0
                more == Append(es, e.t)
            IN  IF IsC(T, e.i, close) THEN Closed(e.i + 1, e.a, more, m, FALSE)
                ELSE IF IsC(T, e.i, COMMA) THEN ListRest(E, T, e.i + 1, e.a, close, more, m)
                ELSE Fail(e.i)

\* a range that starts with n of the given kind, after the numeral
RangeFrom(E, T, i, a, kind, s) ==
  LET dots == Tok(T, i).k
      incl == dots = ".."
      n == Tok(T, i + 1)
      lo == NumOf(E, s, IF kind = "int" THEN 2 ELSE 3)
  IN  IF Illegal(lo) THEN Sem(i)
      ELSE IF dots \notin {"..", "..."} THEN Okay(i, <<"val", <<IF kind = "int" THEN "i" ELSE "f", lo[1]>>>>, a)
      ELSE IF kind = "int" /\ n.k = "int" THEN
        LET hi == NumOf(E, n.s, 2) IN IF Illegal(hi) THEN Sem(i + 1) ELSE RangeT("intr", lo[1], hi[1], incl, i + 2, a)
      ELSE IF n.k \in {"int", "float"} THEN
        LET hi == NumOf(E, n.s, 3)
            l == IF kind = "int" THEN NumOf(E, s, 4) ELSE lo
        IN IF Illegal(hi) THEN Sem(i + 1) ELSE RangeT("floatr", l[1], hi[1], incl, i + 2, a)
      ELSE IF kind = "int" THEN RangeT("intr", lo[1], MaxInt, incl, i + 1, a)
      ELSE RangeT("floatr", lo[1], MaxFloat, incl, i + 1, a)
RangeTo(E, T, i, a) ==
  LET incl == Tok(T, i).k = ".."
      n == Tok(T, i + 1)
      hi == NumOf(E, n.s, IF n.k = "int" THEN 2 ELSE 3)
  IN  IF n.k \notin {"int", "float"} THEN Fail(i + 1)
      ELSE IF Illegal(hi) THEN Sem(i + 1)
      ELSE IF n.k = "int" THEN RangeT("intr", MinInt, hi[1], incl, i + 2, a) ELSE RangeT("floatr", -MaxFloat, hi[1], incl, i + 2, a)

\* the value that a sensitive value holds
Held(t) ==
  IF t[1] = "val" THEN t[2]
  ELSE LET n == Norm(t) IN IF n[1] = "nil" THEN <<"n">> ELSE IF n[1] = "x" THEN n[2] ELSE IF n[1] \in {"rxp", "ci"} THEN <<"?">> ELSE <<"t", n>>

Ident(E, T, i, a) ==
  LET w == Tok(T, i).s
      j == i + 1
  IN
  CASE w = Keywords.any -> Okay(j, AnyT, a)
    [] w = Keywords.bool -> Okay(j, <<"bool">>, a)
    [] w = Keywords.int -> Okay(j, <<"int">>, a)
    [] w = Keywords.float -> Okay(j, <<"float">>, a)
    [] w = Keywords.dgo -> Okay(j, <<"dgo">>, a)
    [] w = Keywords.binary -> Okay(j, <<"bin", 0, Unbounded>>, a)
    [] w = Keywords.true -> Okay(j, <<"val", <<"b", TRUE>>>>, a)
    [] w = Keywords.false -> Okay(j, <<"val", <<"b", FALSE>>>>, a)
    [] w = Keywords.nil -> Okay(j, <<"val", <<"n">>>>, a)
    [] w = Keywords.map ->
         IF ~IsC(T, j, LBRACK) THEN Fail(j)
         ELSE LET k == Expr(E, T, j + 1, a, 1) IN
           IF ~k.ok THEN k
           ELSE LET ps == IF IsC(T, k.i, COMMA) THEN Params(E, T, k.i + 1, k.a, <<>>)
                          ELSE IF IsC(T, k.i, RBRACK) THEN Okay(k.i + 1, <<>>, k.a) ELSE Fail(k.i) IN
             IF ~ps.ok THEN ps
             ELSE LET v == Unary(E, T, ps.i, ps.a)
                      b == Bounds(ps.t)
                  IN  IF ~v.ok THEN v ELSE IF b = <<>> THEN Sem(v.i) ELSE Okay(v.i, <<"mapz", AsType(k.t), AsType(v.t), b[1], b[2]>>, v.a)
    [] w = Keywords.type ->
         IF ~IsC(T, j, LBRACK) THEN Okay(j, <<"meta", AnyT>>, a)
         ELSE LET t == Expr(E, T, j + 1, a, 1) IN
           IF ~t.ok THEN t ELSE IF ~IsC(T, t.i, RBRACK) THEN Fail(t.i) ELSE Okay(t.i + 1, <<"meta", AsType(t.t)>>, t.a)
    [] w = Keywords.string ->
         IF ~IsC(T, j, LBRACK) THEN Okay(j, <<"string">>, a)
         ELSE LET ps == Params(E, T, j + 1, a, <<>>)
                  b == Bounds(ps.t)
              IN  IF ~ps.ok THEN ps
                  ELSE IF Len(ps.t) = 1 /\ ps.t[1][1] = "val" /\ ps.t[1][2][1] = "s" THEN Okay(ps.i, <<"x", ps.t[1][2]>>, ps.a)
                  ELSE IF b = <<>> THEN Sem(ps.i) ELSE Okay(ps.i, <<"strsz", b[1], b[2]>>, ps.a)
    [] w = Keywords.sensitive ->
         IF IsC(T, j, LBRACK) THEN
           LET ps == Params(E, T, j + 1, a, <<>>) IN
           IF ~ps.ok THEN ps
           ELSE IF Len(ps.t) = 0 THEN Okay(ps.i, <<"sens", AnyT>>, ps.a)
           ELSE IF Len(ps.t) = 1 /\ ps.t[1][1] # "val" THEN Okay(ps.i, <<"sens", ps.t[1]>>, ps.a)
           ELSE Sem(ps.i)
         ELSE IF AtEnd(T, j) THEN Okay(j, <<"sens", AnyT>>, a)
         ELSE LET v == Expr(E, T, j, a, 1) IN
           IF ~v.ok THEN v
           ELSE LET r == Res(v.t, SelectSeq(v.a, LAMBDA d : d[2] # <<"pending">>), {}) IN
                IF Mentions(r, "unresolved") \/ Mentions(r, "badkey") THEN Sem(v.i)
                ELSE IF Mentions(r, "?") THEN Okay(v.i, <<"val", <<"sens", <<"?">>>>>>, v.a)
                ELSE Okay(v.i, <<"val", <<"sens", Held(r)>>>>, v.a)
    [] w = Keywords.func ->
         IF ~IsC(T, j, LPAREN) THEN Fail(j)
         ELSE LET in == ListRest(E, T, j + 1, a, RPAREN, <<>>, 0) IN
           IF ~in.ok THEN in
           ELSE IF IsC(T, in.i, LPAREN) THEN
             LET out == ListRest(E, T, in.i + 1, in.a, RPAREN, <<>>, 0) IN
             IF ~out.ok THEN out
             ELSE IF out.t[3] /\ out.t[2] # <<AnyT>> THEN Sem(out.i) \* variadic
             ELSE Okay(out.i, <<"func", in.t, out.t>>, out.a)
           ELSE IF AtEnd(T, in.i) THEN Okay(in.i, <<"func", in.t, <<"tup", <<>>, FALSE>>>>, in.a)
           ELSE LET out == Expr(E, T, in.i, in.a, 1) IN
             IF out.ok THEN Okay(out.i, <<"func", in.t, <<"tup", <<AsType(out.t)>>, FALSE>>>>, out.a) ELSE out
    [] OTHER -> Okay(j, <<"ref", w>>, a)

\* a declaration of an alias. It can be used in its own definition, and before and after it.
Declare(E, T, i, a) ==
  LET w == Tok(T, i).s IN
  IF w \in Reserved \/ Lookup(a, w) # 0 THEN Sem(i)
  ELSE LET r == Expr(E, T, i + 2, Append(a, <<w, <<"pending">>>>), 1) IN
       IF ~r.ok THEN r
       ELSE LET t == AsType(r.t)
                n == Lookup(r.a, w)
            IN  Okay(r.i, t, [r.a EXCEPT ![n] = <<w, t>>])

Primary(E, T, i, a) ==
  LET t == Tok(T, i)
      j == i + 1
  IN
  CASE IsC(T, i, LBRACE) -> ListRest(E, T, j, a, RBRACE, <<>>, 1)
    [] IsC(T, i, LPAREN) ->
         LET e == Expr(E, T, j, a, 1) IN IF ~e.ok THEN e ELSE IF IsC(T, e.i, RPAREN) THEN Okay(e.i + 1, e.t, e.a) ELSE Fail(e.i)
    [] IsC(T, i, LBRACK) ->
         LET ps == Params(E, T, j, a, <<>>) IN
         IF ~ps.ok THEN ps
         ELSE LET e == Unary(E, T, ps.i, ps.a)
                  b == Bounds(ps.t)
              IN  IF ~e.ok THEN e ELSE IF b = <<>> THEN Sem(e.i) ELSE Okay(e.i, <<"arrz", AsType(e.t), b[1], b[2]>>, e.a)
    [] IsC(T, i, LT) -> IF Tok(T, j).k # "id" THEN Fail(j) ELSE IF IsC(T, j + 1, GT) THEN Okay(j + 2, <<"ref", Tok(T, j).s>>, a) ELSE Fail(j + 1)
    [] t.k \in {"int", "float"} -> RangeFrom(E, T, j, a, t.k, t.s)
    [] t.k \in {"..", "..."} -> RangeTo(E, T, i, a)
    [] t.k = "id" -> IF IsC(T, j, EQUAL) THEN Declare(E, T, i, a) ELSE Ident(E, T, i, a)
    [] t.k = "str" -> Okay(j, <<"val", <<"s", t.s>>>>, a)
    [] t.k = "rx" -> IF E.rx[Lookup(E.rx, t.s)][2] THEN Okay(j, <<"rxp", t.s>>, a) ELSE Sem(j)
    [] OTHER -> Fail(i)

\* the whole text
Denotes(E, s) ==
  LET T == Lex(s, 1, <<>>)
      r == Expr(E, T, 1, <<>>, 1)
  IN  [T |-> T, r |-> IF r.ok /\ Tok(T, r.i).k # "eot" THEN Fail(r.i)
                      ELSE IF ~r.ok THEN r
                      ELSE IF r.t[1] = "val" THEN (IF \E n \in 1..Len(r.a) : Mentions(Res(r.a[n][2], r.a, {}), "unresolved") THEN Sem(r.i) ELSE r)
                      ELSE LET t == Res(r.t, r.a, {}) IN
                           IF Mentions(t, "unresolved") \/ Mentions(t, "badkey") THEN Sem(r.i)
                           ELSE Okay(r.i, IF Mentions(t, "?") THEN t ELSE Norm(t), r.a)]

-----------------------------------------------------------------------------
\* Positions. <<line, column>> of the byte at index p. Columns count characters.
RECURSIVE Position(_, _, _, _)
Position(s, p, i, lc) ==
  IF i >= p THEN lc
  ELSE Position(s, p, i + 1, IF CharAt(s, i) = 10 THEN <<lc[1] + 1, 1>> ELSE IF CharAt(s, i) \in 128..191 THEN lc ELSE <<lc[1], lc[2] + 1>>)
Pos(s, p) == Position(s, p, 1, <<1, 1>>)
NotAfter(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
=============================================================================
