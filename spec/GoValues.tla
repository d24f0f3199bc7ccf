------------------------------- MODULE GoValues ------------------------------
(***************************************************************************)
(* Go values and the dgo values that they are converted to and from (P16). *)
(*                                                                         *)
(* Go types:  <<"bool">> <<"string">> <<"int", bits>> <<"uint", bits>>     *)
(*   <<"float", bits>> <<"bytes">> <<"slice", t>> <<"map", k, v>>          *)
(*   <<"ptr", t>> <<"struct", fields>> <<"garr", n, t>> <<"iface">>        *)
(*   <<"value">> (dgo.Value) <<"time">> <<"regexp">> <<"error">>           *)
(*   <<"named", name, t>> (with a name, neither a slice nor a map)         *)
(*   <<"func", parameters, is variadic, results>>                          *)
(* Go values: <<"nil">> <<"b", x>> <<"s", bytes>> <<"bin", bytes>>         *)
(*   <<"i", is negative, decimal digits>>                                  *)
(*   <<"f", text, text of the nearest 32 bit float, is too large for one>> *)
(*   <<"slice", elements>> <<"map", pairs>> <<"ptr", v>>                   *)
(*   <<"if", type, v>> <<"v", dgo value>> <<"tm", text>> <<"rx", text>>    *)
(*   <<"err", text>> <<"fn", type, what tells it from others>>             *)
(* dgo values are those of Types.tla with numbers like these, and          *)
(*   <<"nat", go type, go value>>                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE Types

MaxInt(bits) ==
  CASE bits = 8 -> <<1, 2, 7>>
    [] bits = 16 -> <<3, 2, 7, 6, 7>>
    [] bits = 32 -> <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>
    [] bits = 64 -> <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>
MaxUint(bits) ==
  CASE bits = 8 -> <<2, 5, 5>>
    [] bits = 16 -> <<6, 5, 5, 3, 5>>
    [] bits = 32 -> <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>
    [] bits = 64 -> <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>
NotMore(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ BytesCmp(a, b) <= 0)
\* the magnitude of the smallest is one more than the largest, all of which end with 7
MinInt(bits) == LET m == MaxInt(bits) IN [m EXCEPT ![Len(m)] = 8]
FitsInt(bits, n) == NotMore(n[3], IF n[2] THEN MinInt(bits) ELSE MaxInt(bits))
FitsUint(bits, n) == ~n[2] /\ NotMore(n[3], MaxUint(bits))
Byte(n) == IF Len(n[3]) = 1 THEN n[3][1] ELSE IF Len(n[3]) = 2 THEN n[3][1] * 10 + n[3][2] ELSE n[3][1] * 100 + n[3][2] * 10 + n[3][3]
DigitsOf(b) == IF b > 99 THEN <<b \div 100, (b \div 10) % 10, b % 10>> ELSE IF b > 9 THEN <<b \div 10, b % 10>> ELSE <<b>>

No == <<"no">>
Ok(x) == <<"ok", x>>

-----------------------------------------------------------------------------
\* What a go value is as a dgo value, or <<"no">> when an integer has no dgo value. It can't be told for some pointers
\* whether they are natives.
RECURSIVE Image(_, _)
Images(t, gs) ==
  LET is == [i \in DOMAIN gs |-> Image(t, gs[i])] IN
  IF \E i \in DOMAIN is : is[i][1] = "no" THEN No ELSE Ok(is)
Image(t, g) ==
  CASE g[1] = "nil" -> <<"n">>
    [] t[1] \in {"named", "struct", "garr"} -> <<"nat", t, g>>
    [] g[1] = "if" -> Image(g[2], g[3])
    [] g[1] = "v" -> g[2]
    [] g[1] = "i" -> IF FitsInt(64, g) THEN g ELSE No
    [] g[1] = "slice" -> LET is == Images(t[2], g[2]) IN IF is[1] = "no" THEN No ELSE <<"arr", is[2]>>
    [] g[1] = "map" ->
         LET ks == Images(t[2], [i \in DOMAIN g[2] |-> g[2][i][1]])
             vs == Images(t[3], [i \in DOMAIN g[2] |-> g[2][i][2]]) IN
         IF "no" \in {ks[1], vs[1]} THEN No ELSE <<"map", [i \in DOMAIN g[2] |-> <<ks[2][i], vs[2][i]>>]>>
    [] g[1] = "ptr" -> IF t[2][1] \in {"named", "struct", "time"} THEN <<"nat", t, g>> ELSE Image(t[2], g[2])
    [] OTHER -> g

\* a nil slice or map is as good as an empty one, and so is a pointer to nil as good as a nil pointer
RECURSIVE Nothing(_)
Nothing(x) ==
  \/ x[1] = "ptr" /\ Nothing(x[2]) /\ x[2][1] \in {"nil", "ptr", "v", "if"}
  \/ x[1] = "if" /\ Nothing(x[3]) /\ x[3][1] \in {"nil", "ptr", "v"}
  \/ x[1] = "v" /\ x[2][1] = "n"
  \/ x[1] \in {"n", "nil"} \/ (x[1] \in {"arr", "slice", "map", "bin"} /\ x[2] = <<>>)
\* a pointer to a native, and the native
Bare(x) == IF x[1] = "nat" /\ x[2][1] = "ptr" /\ x[3][1] = "ptr" THEN <<x[2][2], x[3][2]>> ELSE IF x[1] = "nat" THEN <<x[2], x[3]>> ELSE <<<<"time">>, x>>
RECURSIVE Is(_, _)
\* dgo values that are the same
Is(v, w) ==
  \/ Nothing(v) /\ Nothing(w)
  \/ /\ {v[1], w[1]} \in {{"nat"}, {"nat", "tm"}}
     /\ Bare(v)[1] = Bare(w)[1]
     /\ LET x == Bare(v)[2]
            y == Bare(w)[2] IN x = y
  \/ /\ v[1] = w[1]
     /\ CASE v[1] = "arr" -> Len(v[2]) = Len(w[2]) /\ \A i \in DOMAIN v[2] : Is(v[2][i], w[2][i])
          [] v[1] = "map" -> Len(v[2]) = Len(w[2])
                             /\ \A i \in DOMAIN v[2] : \E j \in DOMAIN w[2] : Is(v[2][i][1], w[2][j][1]) /\ Is(v[2][i][2], w[2][j][2])
          [] v[1] = "sens" -> Is(v[2], w[2])
          [] OTHER -> v = w

\* go values of a type that are the same. What an interface holds can be of some other type that represents the same.
RECURSIVE SameGo(_, _, _)
SameGo(t, a, b) ==
  \/ Nothing(a) /\ Nothing(b)
  \/ a = b
  \/ CASE t[1] = "iface" -> Is(Image(t, a), Image(t, b))
       [] t[1] = "value" -> a[1] = "v" /\ b[1] = "v" /\ Is(a[2], b[2])
       [] t[1] \in {"slice", "garr"} ->
            a[1] = "slice" /\ b[1] = "slice" /\ Len(a[2]) = Len(b[2])
            /\ \A i \in DOMAIN a[2] : SameGo(t[Len(t)], a[2][i], b[2][i])
       [] t[1] = "struct" ->
            a[1] = "slice" /\ b[1] = "slice" /\ Len(a[2]) = Len(b[2])
            /\ \A i \in DOMAIN a[2] : SameGo(t[2][i][2], a[2][i], b[2][i])
       [] t[1] = "map" ->
            a[1] = "map" /\ b[1] = "map" /\ Len(a[2]) = Len(b[2])
            /\ \A i \in DOMAIN a[2] : \E j \in DOMAIN b[2] : SameGo(t[2], a[2][i][1], b[2][j][1]) /\ SameGo(t[3], a[2][i][2], b[2][j][2])
       [] t[1] = "ptr" -> a[1] = "ptr" /\ b[1] = "ptr" /\ SameGo(t[2], a[2], b[2])
       [] OTHER -> FALSE

-----------------------------------------------------------------------------
\* What a dgo value is as a go value of a type: <<"ok", go value>>, <<"no">> when it can't be represented, or
\* <<"?">> when it may be refused or become the zero value, or <<"any">> (an interface can hold everything)
Unknown == <<"?">>
\* maps in go can't have all keys that maps have
RECURSIVE Unhashable(_)
Unhashable(v) ==
  CASE v[1] = "arr" -> \E i \in DOMAIN v[2] : Unhashable(v[2][i])
    [] v[1] = "map" -> \E i \in DOMAIN v[2] : v[2][i][1][1] \in {"bin", "arr", "map"} \/ Unhashable(v[2][i][2])
    [] OTHER -> FALSE
RECURSIVE To(_, _)
All(rs, f(_)) ==
  IF \E i \in DOMAIN rs : rs[i][1] = "no" THEN No
  ELSE IF \E i \in DOMAIN rs : rs[i][1] = "?" THEN Unknown
  ELSE Ok(f([i \in DOMAIN rs |-> rs[i][2]]))
Nilable(t) == t[1] \in {"slice", "map", "ptr", "iface", "error", "regexp", "bytes", "func"}
To(t, v) ==
  IF t[1] = "value" THEN Ok(<<"v", v>>)
  ELSE IF v[1] = "n" THEN (IF Nilable(t) THEN Ok(<<"nil">>) ELSE Unknown)
  ELSE IF t[1] = "iface" THEN IF Unhashable(v) THEN Unknown ELSE Ok(<<"if", <<"value">>, <<"v", v>>>>)
  ELSE IF v[1] = "nat" THEN
    (IF v[2] = t THEN Ok(v[3])
     ELSE IF t[1] = "ptr" THEN LET r == To(t[2], v) IN IF r[1] = "ok" THEN Ok(<<"ptr", r[2]>>) ELSE r
     ELSE IF v[2][1] = "ptr" /\ v[2][2] = t THEN Unknown
     ELSE No)
  ELSE
  CASE t[1] = "bool" -> IF v[1] = "b" THEN Ok(v) ELSE No
    [] t[1] = "string" -> IF v[1] = "s" THEN Ok(v) ELSE No
    [] t[1] = "int" -> IF v[1] = "i" /\ FitsInt(t[2], v) THEN Ok(v) ELSE No
    [] t[1] = "uint" -> IF v[1] = "i" /\ FitsUint(t[2], v) THEN Ok(v) ELSE No
    [] t[1] = "float" -> IF v[1] # "f" \/ (t[2] = 32 /\ v[4]) THEN No
                         ELSE IF t[2] = 32 THEN Ok(<<"f", v[3], v[3], FALSE>>) ELSE Ok(v)
    [] t[1] = "bytes" ->
         IF v[1] = "bin" THEN Ok(v)
         ELSE IF v[1] = "arr" THEN All([i \in DOMAIN v[2] |-> To(<<"uint", 8>>, v[2][i])], LAMBDA xs : <<"bin", [i \in DOMAIN xs |-> Byte(xs[i])]>>)
         ELSE No
    [] t[1] = "slice" ->
         IF v[1] = "bin" THEN (IF t[2] = <<"uint", 8>> THEN Ok(<<"slice", [i \in DOMAIN v[2] |-> <<"i", FALSE, DigitsOf(v[2][i])>>]>>) ELSE No)
         ELSE IF v[1] = "arr" THEN All([i \in DOMAIN v[2] |-> To(t[2], v[2][i])], LAMBDA xs : <<"slice", xs>>)
         ELSE No
    [] t[1] = "map" ->
         IF v[1] = "map" THEN
           LET ks == [i \in DOMAIN v[2] |-> To(t[2], v[2][i][1])]
               vs == [i \in DOMAIN v[2] |-> To(t[3], v[2][i][2])] IN
           All([i \in DOMAIN v[2] |-> IF "no" \in {ks[i][1], vs[i][1]} THEN No ELSE IF "?" \in {ks[i][1], vs[i][1]} THEN Unknown
                                      ELSE Ok(<<ks[i][2], vs[i][2]>>)],
               LAMBDA xs : <<"map", xs>>)
         ELSE No
    \* a pointer to bytes may be taken of a binary, or not when the type of the bytes is named
    [] t[1] = "ptr" -> IF v[1] = "bin" /\ t[2] = <<"slice", <<"uint", 8>>>> THEN Unknown
                       ELSE LET r == To(t[2], v) IN IF r[1] = "ok" THEN Ok(<<"ptr", r[2]>>) ELSE r
    [] t[1] = "time" -> IF v[1] = "tm" THEN Ok(v) ELSE No
    [] t[1] = "func" -> IF v[1] = "fn" /\ v[2] = t THEN Ok(v) ELSE No
    [] t[1] = "regexp" -> IF v[1] = "rx" THEN Ok(v) ELSE No
    [] t[1] = "error" -> IF v[1] = "err" THEN Ok(v) ELSE No
    [] t[1] = "named" -> LET r == To(t[3], v) IN IF r[1] = "no" THEN No ELSE Unknown
    [] OTHER -> No

RECURSIVE HasNative(_)
HasNative(v) ==
  CASE v[1] = "nat" -> TRUE
    [] v[1] = "arr" -> \E i \in DOMAIN v[2] : HasNative(v[2][i])
    [] v[1] = "map" -> \E i \in DOMAIN v[2] : HasNative(v[2][i][1]) \/ HasNative(v[2][i][2])
    [] OTHER -> FALSE

\* a float that isn't the same as a 32 bit float
RECURSIVE Rounds(_)
Rounds(v) ==
  CASE v[1] = "f" -> v[2] # v[3]
    [] v[1] = "arr" -> \E i \in DOMAIN v[2] : Rounds(v[2][i])
    [] v[1] = "map" -> \E i \in DOMAIN v[2] : Rounds(v[2][i][1]) \/ Rounds(v[2][i][2])
    [] OTHER -> FALSE
\* keys, of which there may be several that become the same
RECURSIVE RoundKeys(_)
RoundKeys(v) ==
  CASE v[1] = "arr" -> \E i \in DOMAIN v[2] : RoundKeys(v[2][i])
    [] v[1] = "map" -> \E i \in DOMAIN v[2] : Rounds(v[2][i][1]) \/ RoundKeys(v[2][i][2])
    [] OTHER -> FALSE
=============================================================================
