----------------------------- MODULE TypesTrace -----------------------------
(***************************************************************************)
(* Judges recordings of what real types and values say about each other.   *)
(* Each line stands on its own.                                            *)
(***************************************************************************)
EXTENDS Types, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Env(ev) == [asg |-> Range(ev.asg), dgo |-> Range(ev.dgo), ali |-> ev.ali]
W(p, what) == IF p THEN {} ELSE {what}
Has(ev, f) == f \in DOMAIN ev

\* P07
Inst(ev) ==
  LET E == Env(ev) IN
  UNION {W(In(E, ev.vs[i], ev.t) = ev.rs[i], <<"instance", i>>) : i \in 1..Len(ev.vs)}
  \cup W(~Has(ev, "go"), <<"instance of go value">>)
  \cup W(~Has(ev, "other"), <<"instance of equal value">>)

\* P05. ev.hash has two hash codes for each value, one for each way that the value was built. They are renumbered from 0.
Equality(ev) ==
  LET n == Len(ev.vs) IN
  UNION {UNION {LET eq == Eq(ev.vs[i], ev.vs[j]) IN
                W(ev.eq[i][j] = eq, <<"equals", i, j>>)
                \cup W(ev.go[i][j] = eq, <<"equals go value", i, j>>)
                \cup W(ev.key[i][j] = eq, <<"lookup", i, j>>)
                \cup W(eq => ev.hash[2 * i - 1] = ev.hash[2 * j], <<"hash", i, j>>)
                \cup W(eq => ev.hash[2 * i] = ev.hash[2 * j], <<"hash", i, j>>) : j \in 1..n} : i \in 1..n}
  \cup W(ev.again, <<"hash code or equality with itself changed">>)

\* P05 for types. There may be more equal pairs than those that are the same by definition.
EqualTypes(ev) ==
  LET N == 1..Len(ev.ts) IN
  UNION {UNION {W(Same(ev.ts[i], ev.ts[j]) => ev.eq[i][j], <<"same but not equal", i, j>>)
                \cup W(ev.eq[i][j] = ev.qe[i][j], <<"not symmetric", i, j>>)
                \cup W(ev.eq[i][j] = ev.eq[j][i], <<"not symmetric", i, j>>)
                \cup W(ev.eq[i][j] = ev.key[i][j], <<"lookup", i, j>>)
                \cup W(\A k \in N : ev.eq[i][j] /\ ev.eq[j][k] => ev.eq[i][k], <<"not transitive", i, j>>)
                \cup W(ev.eq[i][j] => /\ ev.hash[2 * i - 1] = ev.hash[2 * j]
                                     /\ ev.hash[2 * i] = ev.hash[2 * j]
                                     /\ ev.hash[2 * i - 1] = ev.hash[2 * j - 1], <<"hash", i, j>>)
                \cup W(ev.eq[i][j] /\ Plain(ev.ts[i]) /\ Plain(ev.ts[j]) => ev.asg[i][j], <<"equal but not assignable", i, j>>)
                \cup W(ev.eq[i][j] => ev.inst[i] = ev.inst[j], <<"equal with different instances", i, j>>) : j \in N} : i \in N}

\* P08
RECURSIVE HasKind(_, _)
HasKind(t, ks) ==
  \/ t[1] \in ks
  \/ CASE t[1] \in {"arrz", "not", "sens", "meta"} -> HasKind(t[2], ks)
       [] t[1] \in {"tup", "all", "anyof", "one"} -> \E i \in 1..Len(t[2]) : HasKind(t[2][i], ks)
       [] t[1] = "mapz" -> HasKind(t[2], ks) \/ HasKind(t[3], ks)
       [] t[1] = "struct" -> \E i \in 1..Len(t[2]) : HasKind(t[2][i][2], ks)
       [] OTHER -> FALSE
RECURSIVE NotOf(_, _)
\* t has a not of something of the kinds ks
NotOf(t, ks) ==
  \/ t[1] = "not" /\ HasKind(t[2], ks)
  \/ CASE t[1] \in {"arrz", "not", "sens", "meta"} -> NotOf(t[2], ks)
       [] t[1] \in {"tup", "all", "anyof", "one"} -> \E i \in 1..Len(t[2]) : NotOf(t[2][i], ks)
       [] t[1] = "mapz" -> NotOf(t[2], ks) \/ NotOf(t[3], ks)
       [] t[1] = "struct" -> \E i \in 1..Len(t[2]) : NotOf(t[2][i][2], ks)
       [] OTHER -> FALSE
\* A not type is assignable from a union when it is assignable from one of its operands. The tests insist on that, so
\* the known finding is that pairs where a not meets a union can be assignable although they should not be. When that
\* happens for the types themselves, parts tells what operands the not type is assignable from.
NotMeetsUnion(a, b, parts) ==
  IF a[1] = "not" /\ b[1] \in {"anyof", "one"} THEN \E k \in 1..Len(parts) : parts[k]
  ELSE \/ HasKind(a, {"not"}) /\ HasKind(b, {"anyof", "one"})
       \/ NotOf(b, {"not"}) /\ NotOf(a, {"anyof", "one"})

Assignability(ev) ==
  LET E == Env(ev)
      T == 1..Len(ev.ts)
      V == 1..Len(ev.vs)
      in == [i \in T |-> [k \in V |-> In(E, ev.vs[k], ev.ts[i])]]
  IN
  UNION {UNION {
      W(ev.asgn[i][j] => \A k \in V : in[j][k] => in[i][k],
        IF NotMeetsUnion(ev.ts[i], ev.ts[j], ev.parts[i][j]) THEN <<"not meets union">> ELSE <<"unsound", i, j>>)
      \cup W(Must(E, ev.ts[i], ev.ts[j]) => ev.asgn[i][j], <<"refused", i, j>>) : j \in T} : i \in T}
  \cup UNION {UNION {
      W(ev.exact[i][k] = 1 => in[i][k], <<"unsound for exact type", i, k>>)
      \cup W(ev.exact[i][k] = 0 /\ Plain(ev.ts[i]) => ~in[i][k], <<"exact type refused", i, k>>) : k \in V} : i \in T}
  \cup UNION {W(ev.self[i] \/ ~Plain(ev.ts[i]), <<"not reflexive", i>>) : i \in T}

\* P09
Scalar == [i |-> <<"int">>, f |-> <<"float">>, s |-> <<"string">>, b |-> <<"bool">>, rx |-> <<"regexp">>, tm |-> <<"time">>,
           err |-> <<"error">>, n |-> <<"nil">>, bin |-> <<"bin", 0, Unbounded>>]
Generic(ev) ==
  LET E == Env(ev)
      t == ev.t
      g == ev.g
  IN
  UNION {W(In(E, ev.vs[i], t) => In(E, ev.vs[i], g),
           IF HasKind(t, {"not"}) /\ HasKind(t, {"anyof", "one"}) THEN <<"not meets union">> ELSE <<"generic form is narrower", i>>)
         \cup W(ev.rs[i] = In(E, ev.vs[i], g), <<"instance of generic form", i>>) : i \in 1..Len(ev.vs)}
  \cup W(ev.wider \/ ~Plain(t), <<"generic form not assignable from type">>)
  \cup W(ev.again, <<"generic form has another generic form">>)
  \cup W(t[1] = "x" /\ t[2][1] \in DOMAIN Scalar => g = Scalar[t[2][1]], <<"generic form of scalar">>)
  \cup W(t[1] \in {"pat", "ci"} => g = <<"string">>, <<"generic form of string type">>)
  \cup W(t[1] = "tup" \/ (t[1] = "x" /\ t[2][1] = "arr") => g[1] = "arr" \/ (g[1] = "arrz" /\ g[3] = 0 /\ g[4] = Unbounded), <<"generic form has a size">>)
  \cup W(t[1] = "struct" \/ (t[1] = "x" /\ t[2][1] = "map") => g[1] = "map" \/ (g[1] = "mapz" /\ g[4] = 0 /\ g[5] = Unbounded), <<"generic form has a size">>)

Exact(ev) ==
  LET N == 1..Len(ev.vs) IN
  UNION {UNION {LET eq == Eq(ev.vs[i], ev.vs[j]) IN
                W(ev.inst[i][j] = eq, <<"instance of the type of a value", i, j>>)
                \cup W(ev.asgn[i][j] = eq, <<"assignable to the type of a value", i, j>>)
                \cup W(ev.eq[i][j] = eq, <<"types of values", i, j>>) : j \in N}
         \cup W(Eq(ev.val[i], ev.vs[i]), <<"exact value", i>>) : i \in N}

\* P19. The entries of the struct are those of the definition. For the type of a map they are its entries.
StructOf(E, t) ==
  CASE t[1] = "ref" -> E.ali[CHOOSE i \in 1..Len(E.ali) : E.ali[i][1] = t[2]][2]
    [] t[1] = "x" -> <<"struct", [i \in 1..Len(t[2][2]) |-> <<t[2][2][i][1], <<"x", t[2][2][i][2]>>, TRUE>>], FALSE>>
    [] OTHER -> t
Known(st, k) == {i \in 1..Len(st[2]) : Eq(st[2][i][1], k)}
\* how a map fails to be an instance of a struct
Reports(E, st, v) ==
  LET at(i) == {j \in 1..Len(v[2]) : Eq(v[2][j][1], st[2][i][1])} IN
  {<<"missing required", st[2][i][1]>> : i \in {i \in 1..Len(st[2]) : st[2][i][3] /\ at(i) = {}}}
  \cup {<<"type", st[2][i][1]>> : i \in {i \in 1..Len(st[2]) : \E j \in at(i) : ~In(E, v[2][j][2], st[2][i][2])}}
  \cup (IF st[3] THEN {} ELSE {<<"unknown", v[2][j][1]>> : j \in {j \in 1..Len(v[2]) : Known(st, v[2][j][1]) = {}}})
\* the reports are the expected ones, each of them once
SameReports(got, want) ==
  /\ Len(got) = Cardinality(want)
  /\ \A w \in want : \E i \in 1..Len(got) : got[i][1] = w[1] /\ Eq(got[i][2], w[2])
CountKind(want, k) == Cardinality({w \in want : w[1] = k})
Validate(ev) ==
  LET E == Env(ev)
      st == StructOf(E, ev.t)
      n == Len(st[2])
      required == Cardinality({i \in 1..n : st[2][i][3]})
      \* the parts that a recorded entry tells
      entry(e, i) == Eq(e[1], st[2][i][1]) /\ (ev.t[1] = "struct" => e[2]) /\ e[3] = st[2][i][3]
  IN
  UNION {LET v == ev.vs[i]
             want == Reports(E, st, v)
         IN
         W(ev.rs[i] = In(E, v, ev.t), <<"instance", i>>)
         \cup (IF v[1] # "map"
              THEN W(Len(ev.errs[i]) = 1, <<"value that isn't a map", i>>) \cup W(~ev.verbose[i][1], <<"verbose value that isn't a map", i>>)
              ELSE W(SameReports(ev.errs[i], want), <<"reports", i, want>>)
                   \cup W(ev.verbose[i][1] = (want = {}), <<"verbose verdict", i>>)
                   \cup W(ev.verbose[i] = <<want = {}, CountKind(want, "type"), CountKind(want, "missing required"),
                                           CountKind(want, "unknown")>>, <<"verbose reports", i, want>>)
                   \cup W((want = {}) = In(E, v, ev.t), <<"reports and instance disagree", i>>)) : i \in 1..Len(ev.vs)}
  \cup W(~Has(ev, "unlabeled"), <<"reports without a label">>)
  \cup W(ev.len = n /\ Len(ev.ents) = n, <<"length">>)
  \cup W(ev.len = n /\ Len(ev.ents) = n => \A i \in 1..n : entry(ev.ents[i], i), <<"entries">>)
  \cup W(ev.additional = st[3], <<"additional">>)
  \cup W(ev.min = required, <<"min">>)
  \cup W(ev.max = (IF st[3] THEN Unbounded ELSE n), <<"max">>)
  \cup W(ev.unbounded = (st[3] /\ required = 0), <<"unbounded">>)
  \cup UNION {LET at == Known(st, ev.keys[i])
                  found(e) == IF at = {} THEN e = <<>> ELSE e # <<>> /\ \A k \in at : entry(e, k)
              IN
              W(ev.keys[i][1] = "t" \/ found(ev.gets[i]), <<"entry of key", i>>)
              \cup W(ev.keys[i][1] = "t" \/ found(ev.getts[i]), <<"entry of the type of key", i>>) : i \in 1..Len(ev.keys)}

\* P06
RECURSIVE Sorted(_, _)
\* r is the result of a stable insertion sort
Insert(r, v) ==
  LET k == Cardinality({i \in 1..Len(r) : Cmp(r[i], v)[1] <= 0}) IN SubSeq(r, 1, k) \o <<v>> \o SubSeq(r, k + 1, Len(r))
Sorted(r, vs) == IF vs = <<>> THEN r ELSE Sorted(Insert(r, vs[1]), Tail(vs))

Order(ev) ==
  LET n == Len(ev.vs) IN
  UNION {UNION {W(ev.cmp[i][j] = Cmp(ev.vs[i], ev.vs[j]), <<"compare", i, j>>)
                \cup W(ev.go[i][j] = Cmp(ev.vs[i], ev.vs[j]), <<"compare go value", i, j>>) : j \in 1..n} : i \in 1..n}
  \cup W((\A i, j \in 1..Len(ev.srt) : Cmp(ev.srt[i], ev.srt[j])[2]) => ev.sorted = Sorted(<<>>, ev.srt), <<"sort">>)

\* P27. What a type tells about itself. A number that is left out of a size is Unbounded.
SizeOf(t) ==
  CASE t[1] = "string" -> <<0, Unbounded>>
    [] t[1] = "dgo" -> <<1, Unbounded>>
    [] t[1] \in {"strsz", "bin"} -> <<Min2(t[2], t[3]), Max2(t[2], t[3])>>
    [] t[1] = "pat" -> <<0, Unbounded>>
    [] t[1] \in {"arr", "map"} -> <<0, Unbounded>>
    [] t[1] = "arrz" -> <<Min2(t[3], t[4]), Max2(t[3], t[4])>>
    [] t[1] = "mapz" -> <<Min2(t[4], t[5]), Max2(t[4], t[5])>>
    [] t[1] = "tup" -> <<TupMin(t), IF t[3] THEN Unbounded ELSE Len(t[2])>>
    [] t[1] = "struct" -> <<Cardinality({i \in 1..Len(t[2]) : t[2][i][3]}), IF t[3] THEN Unbounded ELSE Len(t[2])>>
    [] t[1] = "x" /\ t[2][1] \in {"s", "bin", "arr", "map"} -> <<Len(t[2][2]), Len(t[2][2])>>
    [] OTHER -> <<>>
RECURSIVE Norm(_)
NormAll(ts) == [i \in 1..Len(ts) |-> Norm(ts[i])]
\* the least and greatest integer as numbers
MinInt == -400000000
MaxInt == 399999996
Lo(a, b) == Min2(a, b)
Hi(a, b) == Max2(a, b)
\* there's one instance, and which one it is
IsOne(t) == t[1] \in {"x", "nil"}
TheOne(t) == IF t[1] = "x" THEN t[2] ELSE <<"n">>
\* limits are in order, what limits nothing isn't there, and a type of one value is the type of that value
Norm(t) ==
  CASE t[1] = "intr" /\ t[4] /\ Lo(t[2], t[3]) = MinInt /\ Hi(t[2], t[3]) = MaxInt -> <<"int">>
    [] t[1] = "floatr" /\ t[4] /\ Lo(t[2], t[3]) = -600000000 /\ Hi(t[2], t[3]) = 600000000 -> <<"float">>
    [] t[1] \in {"intr", "floatr"} -> IF t[2] = t[3] THEN <<"x", <<IF t[1] = "intr" THEN "i" ELSE "f", t[2]>>>> ELSE <<t[1], Lo(t[2], t[3]), Hi(t[2], t[3]), t[4]>>
    [] t[1] = "strsz" -> IF Lo(t[2], t[3]) = 0 /\ Hi(t[2], t[3]) = Unbounded THEN <<"string">> ELSE <<"strsz", Lo(t[2], t[3]), Hi(t[2], t[3])>>
    [] t[1] = "bin" -> <<"bin", Lo(t[2], t[3]), Hi(t[2], t[3])>>
    [] t[1] = "arrz" ->
         IF Free(t) THEN <<"arr">>
         ELSE IF t[3] = t[4] /\ t[3] < 100 /\ IsOne(Norm(t[2])) THEN <<"x", <<"arr", [i \in 1..t[3] |-> TheOne(Norm(t[2]))]>>>>
         ELSE <<"arrz", Norm(t[2]), Lo(t[3], t[4]), Hi(t[3], t[4])>>
    [] t[1] = "mapz" -> IF Free(t) THEN <<"map">> ELSE <<"mapz", Norm(t[2]), Norm(t[3]), Lo(t[4], t[5]), Hi(t[4], t[5])>>
    [] t[1] = "tup" ->
         LET ts == NormAll(t[2]) IN
         IF ~t[3] /\ \A i \in 1..Len(ts) : IsOne(ts[i]) THEN <<"x", <<"arr", [i \in 1..Len(ts) |-> TheOne(ts[i])]>>>> ELSE <<"tup", ts, t[3]>>
    [] t[1] = "struct" ->
         LET es == [i \in 1..Len(t[2]) |-> <<t[2][i][1], Norm(t[2][i][2]), t[2][i][3]>>] IN
         IF ~t[3] /\ \A i \in 1..Len(es) : IsOne(es[i][2]) /\ es[i][3]
         THEN <<"x", <<"map", [i \in 1..Len(es) |-> <<es[i][1], TheOne(es[i][2])>>]>>>> ELSE <<"struct", es, t[3]>>
    [] t[1] \in {"all", "anyof", "one"} ->
         IF Len(t[2]) = 1 THEN Norm(t[2][1])
         ELSE IF t[2] = <<>> THEN (IF t[1] = "all" THEN <<"any">> ELSE <<"not", <<"any">>>>)
         ELSE <<t[1], NormAll(t[2])>>
    [] t[1] \in {"not", "sens", "meta"} -> <<t[1], Norm(t[2])>>
    [] t[1] = "ci" -> <<"ci", Fold(t[2])>>
    [] OTHER -> t
RECURSIVE Top(_)
\* an operator with one operand is the operand
Top(t) ==
  IF t[1] \in {"all", "anyof", "one"} /\ Len(t[2]) = 1 THEN Top(t[2][1])
  ELSE IF t[1] \in {"all", "anyof", "one"} /\ t[2] = <<>> THEN (IF t[1] = "all" THEN <<"any">> ELSE <<"not", <<"any">>>>)
  ELSE t
\* the recorded type is t. A regular expression that the driver doesn't know is other.
Is(got, t) == HasKind(got, {"other"}) \/ Same(Norm(got), Norm(t))
AllAre(got, ts) == Len(got) = Len(ts) /\ \A i \in 1..Len(ts) : Is(got[i], ts[i])
Facts(ev) ==
  LET E == Env(ev)
      t == Top(ev.t)
      N == 1..Len(ev.vs)
      in == [i \in N |-> In(E, ev.vs[i], t)]
      size == SizeOf(t)
  IN
  \* sizes
  W(size # <<>> => Len(ev.size) = 3 /\ <<ev.size[1], ev.size[2]>> = size, <<"size", size>>)
  \cup (IF ev.size = <<>> THEN {}
        ELSE UNION {W(in[i] /\ ev.vs[i][1] \in {"s", "bin", "arr", "map"} =>
                        ev.size[1] <= Len(ev.vs[i][2]) /\ Len(ev.vs[i][2]) <= ev.size[2], <<"instance of another size", i>>) : i \in N}
             \cup W(ev.size[3] => ev.size[2] = Unbounded, <<"unbounded with a bound">>)
             \* a variadic tuple is unbounded although it may have a least size
             \cup W(ev.size[1] = 0 /\ ev.size[2] = Unbounded => ev.size[3], <<"not unbounded">>)
             \cup W(ev.size[3] /\ t[1] # "tup" => ev.size[1] = 0, <<"unbounded with a bound">>))
  \* ranges
  \cup W(t[1] \in {"intr", "floatr"} =>
           ev.range = (IF t[2] = t[3] THEN <<t[2], t[2], TRUE>> ELSE <<Min2(t[2], t[3]), Max2(t[2], t[3]), t[4]>>), <<"range">>)
  \cup W(t[1] = "x" /\ t[2][1] \in {"i", "f"} => ev.range = <<t[2][2], t[2][2], TRUE>>, <<"range">>)
  \cup (IF ev.range = <<>> THEN {}
        ELSE UNION {W(in[i] /\ ev.vs[i][1] = "i" => InRange(ev.vs[i][2], ev.range[1], ev.range[2], ev.range[3]), <<"instance out of range", i>>) : i \in N})
  \* instances
  \cup UNION {W(ev.rs[i] = in[i], <<"instance", i>>) : i \in N}
  \cup UNION {W(ev.typed[i] # 2 => (ev.typed[i] = 1) = in[i], <<"instance of a go type", i>>) : i \in N}
  \cup UNION {W(ev.refl[i] # 0, <<"can't be reflected", i>>) \cup W(ev.from[i] # 0, <<"not an instance of the reflected type", i>>) : i \in N}
  \* parts
  \cup W(t[1] \in {"not", "sens", "all", "anyof", "one"} => ev.operator = t[1], <<"operator">>)
  \cup W(t[1] \in {"meta", "metameta"} => ev.operator = "meta", <<"operator">>)
  \cup W(t[1] \in {"not", "sens", "meta"} => AllAre(ev.operands, <<t[2]>>), <<"operand">>)
  \cup W(t[1] = "metameta" => ev.operands = <<>>, <<"operand">>)
  \cup W(t[1] \in {"all", "anyof", "one"} => AllAre(ev.operands, t[2]), <<"operands">>)
  \cup W(t[1] = "tup" => AllAre(ev.elems, t[2]) /\ ev.variadic = t[3], <<"elements">>)
  \cup W(t[1] = "arrz" => AllAre(ev.elems, <<t[2]>>), <<"element type">>)
  \cup W(t[1] = "mapz" => AllAre(ev.elems, <<t[2], t[3]>>), <<"key and value type">>)
  \* additional entries of a struct are of any type
  \cup W(t[1] = "struct" /\ t[3] => AllAre(ev.elems, <<<<"any">>, <<"any">>>>), <<"key and value type">>)
  \cup W(t[1] = "struct" /\ ~t[3] /\ Len(t[2]) = 1 /\ ~ev.isexact => AllAre(ev.elems, <<<<"x", t[2][1][1]>>, t[2][1][2]>>), <<"key and value type">>)
  \cup W(~ev.nogo, <<"no go type">>)
  \* exact types
  \cup W(t[1] = "x" => ev.isexact, <<"not exact">>)
  \cup W(t[1] = "x" => Len(ev.exact) = 1 /\ Eq(ev.exact[1], t[2]), <<"exact value">>)
  \cup W(ev.isexact => \A i \in N : in[i] => Eq(ev.vs[i], ev.exact[1]), <<"exact with another instance">>)

Wrong(ev) ==
  CASE ev.op = "inst" -> Inst(ev)
    [] ev.op = "eq" -> Equality(ev)
    [] ev.op = "eqt" -> EqualTypes(ev)
    [] ev.op = "asg" -> Assignability(ev)
    [] ev.op = "gen" -> Generic(ev)
    [] ev.op = "exact" -> Exact(ev)
    [] ev.op = "cmp" -> Order(ev)
    [] ev.op = "validate" -> Validate(ev)
    [] ev.op = "facts" -> Facts(ev)
    [] OTHER -> {<<"unexpected event">>}

Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.op = "reset" THEN TRUE
     ELSE IF ev.op = "panic" THEN PrintT(<<"REJECT", l, "unexpected panic">>)
     ELSE LET w == Wrong(ev) IN w # {} => PrintT(<<"REJECT", l, w>>)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
