------------------------------- MODULE Types -------------------------------
\* The type system of dgo as sets of values.
\*
\* Values are tagged tuples:
\*   <<"n">>  <<"b", BOOLEAN>>  <<"i", num>>  <<"f", num>>  <<"s", bytes>>  <<"bin", bytes>>  <<"rx", bytes>>
\*   <<"tm", seconds>>  <<"err", bytes>>  <<"sens", value>>  <<"arr", <<values>>>>  <<"map", <<<<key, value>>, ...>>>>
\*   <<"t", type>>       a type that is used as a value
\*   <<"nat", name, n>>  a native go value
\* A number n is represented as 4 * n plus an offset that is specific to the neighbourhood that n is in (zero, 2^31,
\* 2^32, 2^53, 2^63, ...). That keeps equality, order and adjacency (two integers are adjacent when they differ by 4) of
\* all numbers that the driver uses, and it is the same for integers and floats.
\*
\* Types are tagged tuples:
\*   <<"any">> <<"nil">> <<"bool">> <<"int">> <<"float">> <<"string">> <<"dgo">> <<"regexp">> <<"time">> <<"error">>
\*   <<"arr">> <<"map">> <<"x", value>>  <<"intr", min, max, inclusive>>  <<"floatr", min, max, inclusive>>
\*   <<"strsz", min, max>>  <<"bin", min, max>>  <<"pat", kind, bytes>>  <<"ci", bytes>>
\*   <<"arrz", type, min, max>>  <<"tup", <<types>>, variadic>>  <<"mapz", key type, value type, min, max>>
\*   <<"struct", <<<<key value, type, required>>, ...>>, additional>>
\*   <<"not", type>> <<"all", <<types>>>> <<"anyof", <<types>>>> <<"one", <<types>>>> <<"allv", <<values>>>>
\*   <<"ref", name>>  a reference to a named (perhaps recursive) type
\*   <<"meta", type>>  <<"metameta">>  <<"sens", type>> <<"native">>
EXTENDS Integers, Sequences, FiniteSets, TLC

Unbounded == 1073741824

Range(s) == {s[i] : i \in DOMAIN s}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

-----------------------------------------------------------------------------
\* Equality of values (P05)

RECURSIVE Eq(_, _)
\* Equal values have equal content. Arrays are equal when their elements are equal in order, maps when they have equal
\* key-value associations regardless of order. Values of different kinds are never equal.
Eq(v, w) ==
  IF v[1] # w[1] \/ v[1] = "nan" THEN FALSE
  ELSE CASE v[1] = "arr" ->
              /\ Len(v[2]) = Len(w[2])
              /\ \A i \in 1..Len(v[2]) : Eq(v[2][i], w[2][i])
         [] v[1] = "map" ->
              /\ Len(v[2]) = Len(w[2])
              /\ \A i \in 1..Len(v[2]) : \E j \in 1..Len(w[2]) : Eq(v[2][i][1], w[2][j][1]) /\ Eq(v[2][i][2], w[2][j][2])
         [] v[1] = "sens" -> Eq(v[2], w[2])
         [] OTHER -> v = w

RECURSIVE Same(_, _)
RECURSIVE SamePairs(_, _)
\* Types that are defined in the same way are equal. The order of the operands of a logical operator doesn't matter.
Same(t, u) ==
  IF t[1] # u[1] THEN FALSE
  ELSE CASE t[1] \in {"all", "anyof", "one"} -> Len(t[2]) = Len(u[2]) /\ SamePairs(t[2], u[2])
         [] t[1] = "x" -> Eq(t[2], u[2])
         [] t[1] = "tup" -> t[3] = u[3] /\ Len(t[2]) = Len(u[2]) /\ \A i \in 1..Len(t[2]) : Same(t[2][i], u[2][i])
         [] t[1] = "arrz" -> t[3] = u[3] /\ t[4] = u[4] /\ Same(t[2], u[2])
         [] t[1] = "mapz" -> t[4] = u[4] /\ t[5] = u[5] /\ Same(t[2], u[2]) /\ Same(t[3], u[3])
         [] t[1] = "struct" ->
              t[3] = u[3] /\ Len(t[2]) = Len(u[2])
              /\ \A i \in 1..Len(t[2]) : Eq(t[2][i][1], u[2][i][1]) /\ Same(t[2][i][2], u[2][i][2]) /\ t[2][i][3] = u[2][i][3]
         [] t[1] \in {"not", "sens", "meta"} -> Same(t[2], u[2])
         [] OTHER -> t = u
\* each element of ts is the same as some element of us, and each of us is used once
SamePairs(ts, us) ==
  IF ts = <<>> THEN us = <<>>
  ELSE \E i \in 1..Len(us) : Same(ts[1], us[i]) /\ SamePairs(Tail(ts), SubSeq(us, 1, i - 1) \o SubSeq(us, i + 1, Len(us)))

-----------------------------------------------------------------------------
\* Order of values (P06)

\* <<order, ok>> where order is -1, 0, 1
None == <<0, FALSE>>

RECURSIVE BytesCmp(_, _)
BytesCmp(a, b) ==
  IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
  ELSE IF b = <<>> THEN 1
  ELSE IF a[1] < b[1] THEN -1
  ELSE IF a[1] > b[1] THEN 1
  ELSE BytesCmp(Tail(a), Tail(b))

IntCmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0

\* kinds of values that have no order, not even in relation to nil
Orderless == {"map", "t", "nat", "rx", "err", "sens", "tm"}

\* nil comes first. Numbers are ordered by their exact numeric value, strings and binaries by their bytes. A pair of
\* values that isn't mentioned has no order, and that goes for a NaN in relation to numbers.
RECURSIVE Cmp(_, _)
RECURSIVE SeqCmp(_, _)
Cmp(v, w) ==
  CASE v[1] = "n" /\ w[1] = "n" -> <<0, TRUE>>
    [] v[1] = "n" -> <<-1, TRUE>>
    [] w[1] = "n" -> IF v[1] \in Orderless THEN None ELSE <<1, TRUE>>
    [] v[1] \in {"i", "f"} /\ w[1] \in {"i", "f"} -> <<IntCmp(v[2], w[2]), TRUE>>
    [] v[1] = "s" /\ w[1] = "s" -> <<BytesCmp(v[2], w[2]), TRUE>>
    [] v[1] = "b" /\ w[1] = "b" -> <<IF v[2] = w[2] THEN 0 ELSE IF v[2] THEN 1 ELSE -1, TRUE>>
    [] v[1] = "bin" /\ w[1] = "bin" -> <<BytesCmp(v[2], w[2]), TRUE>>
    [] v[1] = "arr" /\ w[1] = "arr" -> SeqCmp(v[2], w[2])
    [] OTHER -> None
\* lexicographic, but only when each pair of elements up to the first difference has an order
SeqCmp(a, b) ==
  IF a = <<>> THEN (IF b = <<>> THEN <<0, TRUE>> ELSE <<-1, TRUE>>)
  ELSE IF b = <<>> THEN <<1, TRUE>>
  ELSE LET c == IF b[1][1] = "n" /\ a[1][1] # "n" THEN <<1, TRUE>> ELSE Cmp(a[1], b[1]) IN
       IF ~c[2] THEN None ELSE IF c[1] # 0 THEN c ELSE SeqCmp(Tail(a), Tail(b))

-----------------------------------------------------------------------------
\* Instance (P07). E is the environment: E.asg is the set of pairs of types <<a, b>> such that a is assignable from b,
\* restricted to what occurs as the parameter of a meta type and as type values. E.dgo is the set of
\* strings that the parser accepts. E.ali has the named types.

HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Contains(s, p) == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p

\* what a string is under case folding: the kelvin sign is a k, the long s is an s
RECURSIVE Fold(_)
Fold(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF HasPrefix(s, <<226, 132, 170>>) THEN <<107>> \o Fold(SubSeq(s, 4, Len(s)))
  ELSE IF HasPrefix(s, <<197, 191>>) THEN <<115>> \o Fold(SubSeq(s, 3, Len(s)))
  ELSE IF s[1] \in 65..90 THEN <<s[1] + 32>> \o Fold(Tail(s))
  ELSE <<s[1]>> \o Fold(Tail(s))

InRange(n, lo, hi, incl) ==
  LET l == Min2(lo, hi)
      h == Max2(lo, hi)
  IN  l <= n /\ (IF incl THEN n <= h ELSE n < h)
InSize(n, lo, hi) == Min2(lo, hi) <= n /\ n <= Max2(lo, hi)

RECURSIVE In(_, _, _)
In(E, v, t) ==
  LET k == t[1] IN
  CASE k = "any" -> TRUE
    [] k = "ref" -> In(E, v, E.ali[CHOOSE i \in 1..Len(E.ali) : E.ali[i][1] = t[2]][2])
    [] k = "nil" -> v[1] = "n"
    [] k = "bool" -> v[1] = "b"
    [] k = "int" -> v[1] = "i"
    [] k = "float" -> v[1] = "f"
    [] k = "string" -> v[1] = "s"
    [] k = "regexp" -> v[1] = "rx"
    [] k = "time" -> v[1] = "tm"
    [] k = "error" -> v[1] = "err"
    [] k = "native" -> v[1] = "nat"
    [] k = "dgo" -> v[1] = "s" /\ v[2] \in E.dgo
    [] k = "x" -> Eq(v, t[2])
    [] k = "intr" -> v[1] = "i" /\ InRange(v[2], t[2], t[3], t[4])
    [] k = "floatr" -> v[1] = "f" /\ InRange(v[2], t[2], t[3], t[4])
    [] k = "strsz" -> v[1] = "s" /\ InSize(Len(v[2]), t[2], t[3])
    [] k = "bin" -> v[1] = "bin" /\ InSize(Len(v[2]), t[2], t[3])
    [] k = "pat" -> v[1] = "s" /\ (CASE t[2] = "has" -> Contains(v[2], t[3])
                                     [] t[2] = "pre" -> HasPrefix(v[2], t[3])
                                     [] t[2] = "suf" -> HasSuffix(v[2], t[3])
                                     [] t[2] = "is" -> v[2] = t[3])
    [] k = "ci" -> v[1] = "s" /\ Fold(v[2]) = Fold(t[2])
    [] k = "arr" -> v[1] = "arr"
    [] k = "arrz" -> v[1] = "arr" /\ InSize(Len(v[2]), t[3], t[4]) /\ \A i \in 1..Len(v[2]) : In(E, v[2][i], t[2])
    [] k = "tup" ->
         /\ v[1] = "arr"
         /\ IF t[3] THEN Len(v[2]) >= Len(t[2]) - 1 ELSE Len(v[2]) = Len(t[2])
         /\ \A i \in 1..Len(v[2]) : In(E, v[2][i], t[2][Min2(i, Len(t[2]))])
    [] k = "map" -> v[1] = "map"
    [] k = "mapz" ->
         /\ v[1] = "map"
         /\ InSize(Len(v[2]), t[4], t[5])
         /\ \A i \in 1..Len(v[2]) : In(E, v[2][i][1], t[2]) /\ In(E, v[2][i][2], t[3])
    [] k = "struct" ->
         /\ v[1] = "map"
         /\ \A i \in 1..Len(t[2]) :
              LET at == {j \in 1..Len(v[2]) : Eq(v[2][j][1], t[2][i][1])} IN
              /\ t[2][i][3] => at # {}
              /\ \A j \in at : In(E, v[2][j][2], t[2][i][2])
         /\ (t[3] \/ \A j \in 1..Len(v[2]) : \E i \in 1..Len(t[2]) : Eq(v[2][j][1], t[2][i][1]))
    [] k = "not" -> ~In(E, v, t[2])
    [] k = "all" -> \A i \in 1..Len(t[2]) : In(E, v, t[2][i])
    [] k = "allv" -> \A i \in 1..Len(t[2]) : Eq(v, t[2][i])
    [] k = "anyof" -> \E i \in 1..Len(t[2]) : In(E, v, t[2][i])
    [] k = "one" -> Cardinality({i \in 1..Len(t[2]) : In(E, v, t[2][i])}) = 1
    [] k = "sens" -> v[1] = "sens" /\ In(E, v[2], t[2])
    [] k = "meta" -> v[1] = "t" /\ <<t[2], v[2]>> \in E.asg
    [] k = "metameta" -> v[1] = "t" /\ v[2][1] \in {"meta", "metameta"}

-----------------------------------------------------------------------------
\* Assignability (P08). It must be sound: nothing that is an instance of b but not of a. It must also not be refused when
\* one of these rules says that a is assignable from b.

SizeWithin(alo, ahi, blo, bhi) == Min2(alo, ahi) <= Min2(blo, bhi) /\ Max2(blo, bhi) <= Max2(alo, ahi)

\* the type itself when it has no type that is a matter of assignability inside
RECURSIVE Plain(_)
Plain(t) ==
  CASE t[1] \in {"not", "one", "meta", "metameta", "dgo"} -> FALSE
    [] t[1] \in {"all", "anyof"} -> \A i \in 1..Len(t[2]) : Plain(t[2][i])
    [] t[1] = "tup" -> \A i \in 1..Len(t[2]) : Plain(t[2][i])
    [] t[1] = "arrz" -> Plain(t[2])
    [] t[1] = "mapz" -> Plain(t[2]) /\ Plain(t[3])
    [] t[1] = "struct" -> \A i \in 1..Len(t[2]) : Plain(t[2][i][2])
    [] t[1] = "sens" -> Plain(t[2])
    [] OTHER -> TRUE

IntEnd(t) == IF t[4] THEN Max2(t[2], t[3]) ELSE Max2(t[2], t[3]) - 4

\* the type of the element at i, or of all elements beyond the last
At(t, i) == t[2][Min2(i, Len(t[2]))]
TupMin(t) == IF t[3] THEN Len(t[2]) - 1 ELSE Len(t[2])

\* an array (map) that isn't constrained is assignable to any and to itself only, no matter how wide a constraint is
Free(t) == t = <<"arrz", <<"any">>, 0, Unbounded>> \/ t = <<"mapz", <<"any">>, <<"any">>, 0, Unbounded>>

RECURSIVE Must(_, _, _)
Must(E, a, b) ==
  \/ a[1] = "any"
  \/ a = b /\ Plain(a)
  \/ b[1] = "anyof" /\ a[1] # "not" /\ a[1] # "one" /\ \A i \in 1..Len(b[2]) : Must(E, a, b[2][i])
  \/ a[1] = "anyof" /\ b[1] \notin {"anyof", "one", "all", "allv"} /\ \E i \in 1..Len(a[2]) : Must(E, a[2][i], b)
  \/ a[1] = "anyof" /\ b[1] = "anyof" /\ \A j \in 1..Len(b[2]) : \E i \in 1..Len(a[2]) : Must(E, a[2][i], b[2][j])
  \/ a[1] = "all" /\ b[1] \notin {"anyof", "one", "all", "allv"} /\ \A i \in 1..Len(a[2]) : Must(E, a[2][i], b)
  \/ b[1] = "x" /\ b[2][1] # "t" /\ Plain(a) /\ In(E, b[2], a)
  \/ b[1] = "nil" /\ Plain(a) /\ In(E, <<"n">>, a)
  \/ a[1] = "int" /\ b[1] = "intr"
  \/ a[1] = "intr" /\ b[1] = "intr" /\ a[2] # a[3] /\ Min2(a[2], a[3]) <= Min2(b[2], b[3]) /\ IntEnd(a) >= IntEnd(b)
  \/ a[1] = "float" /\ b[1] = "floatr"
  \/ a[1] = "floatr" /\ b[1] = "floatr" /\ Min2(a[2], a[3]) <= Min2(b[2], b[3])
       /\ (Max2(a[2], a[3]) > Max2(b[2], b[3]) \/ (Max2(a[2], a[3]) = Max2(b[2], b[3]) /\ (a[4] \/ ~b[4])))
  \/ a[1] = "string" /\ b[1] \in {"strsz", "pat", "ci", "dgo"}
  \/ a[1] = "strsz" /\ b[1] = "strsz" /\ SizeWithin(a[2], a[3], b[2], b[3])
  \/ a[1] = "bin" /\ b[1] = "bin" /\ SizeWithin(a[2], a[3], b[2], b[3])
  \/ a[1] = "arr" /\ b[1] \in {"arrz", "tup"}
  \/ a[1] = "arrz" /\ b[1] = "arrz" /\ ~Free(b) /\ SizeWithin(a[3], a[4], b[3], b[4]) /\ Must(E, a[2], b[2])
  \/ a[1] = "arrz" /\ b[1] = "tup" /\ Min2(a[3], a[4]) <= TupMin(b) /\ Max2(a[3], a[4]) >= (IF b[3] THEN Unbounded ELSE Len(b[2]))
       /\ \A i \in 1..Len(b[2]) : Must(E, a[2], b[2][i])
  \/ a[1] = "tup" /\ b[1] = "tup" /\ a[3] = b[3] /\ Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : Must(E, a[2][i], b[2][i])
  \/ a[1] = "tup" /\ b[1] = "tup" /\ a[3] /\ Len(a[2]) <= Len(b[2]) /\ \A i \in 1..Len(b[2]) : Must(E, At(a, i), b[2][i])
  \/ a[1] = "tup" /\ b[1] = "arrz" /\ ~Free(b) /\ a[3] /\ Len(a[2]) - 1 <= Min2(b[3], b[4]) /\ \A i \in 1..Len(a[2]) : Must(E, a[2][i], b[2])
  \/ a[1] = "map" /\ b[1] \in {"mapz", "struct"}
  \/ a[1] = "mapz" /\ b[1] = "mapz" /\ ~Free(b) /\ SizeWithin(a[4], a[5], b[4], b[5]) /\ Must(E, a[2], b[2]) /\ Must(E, a[3], b[3])
  \/ a[1] = "mapz" /\ b[1] = "struct" /\ ~b[3] /\ Len(b[2]) > 0
       /\ Min2(a[4], a[5]) <= Cardinality({i \in 1..Len(b[2]) : b[2][i][3]}) /\ Max2(a[4], a[5]) >= Len(b[2])
       /\ \A i \in 1..Len(b[2]) : Must(E, a[2], <<"x", b[2][i][1]>>) /\ Must(E, a[3], b[2][i][2])
  \/ a[1] = "struct" /\ b[1] = "struct" /\ (a[3] \/ ~b[3])
       /\ (\A i \in 1..Len(a[2]) :
            LET at == {j \in 1..Len(b[2]) : Eq(a[2][i][1], b[2][j][1])} IN
            IF at = {} THEN ~a[2][i][3] /\ ~b[3]
            ELSE \A j \in at : (a[2][i][3] => b[2][j][3]) /\ Must(E, a[2][i][2], b[2][j][2]))
       /\ (a[3] \/ \A j \in 1..Len(b[2]) : \E i \in 1..Len(a[2]) : Eq(a[2][i][1], b[2][j][1]))
  \/ a[1] = "sens" /\ b[1] = "sens" /\ Must(E, a[2], b[2])
  \/ a[1] = "not" /\ b[1] = "not" /\ Must(E, b[2], a[2])
=============================================================================
