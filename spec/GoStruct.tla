------------------------------- MODULE GoStruct ------------------------------
(***************************************************************************)
(* Go structs that are wrapped as Maps (P16).                              *)
(*                                                                         *)
(* The go type is                                                          *)
(*   struct { A int8; B string; C []int; D interface{}; E dgo.Array;       *)
(*            F *string }                                                  *)
(* A state has                                                             *)
(*   cells    what is referenced: <<"arr", elements, frozen>> (a           *)
(*            dgo.Array), <<"sl", elements>> (a go slice), <<"ptr", text>> *)
(*   structs  go structs: sequences of six field values; C, E, F are the   *)
(*            number of a cell or 0                                        *)
(*   views    <<number of a struct, frozen>>; the struct of a frozen view  *)
(*            is nobody else's                                             *)
(*   pool     arrays that the caller has (numbers of cells)                *)
(*   known    structs that the caller has a pointer to                     *)
(* Values: <<"n">> <<"i", n>> <<"s", text>> <<"f">> (some float),          *)
(*   <<"arr", elements>>, and as an argument <<"ref", i>> (of the pool)    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fields == <<"A", "B", "C", "D", "E", "F">>
FieldNo(k) == IF \E i \in 1..6 : Fields[i] = k THEN CHOOSE i \in 1..6 : Fields[i] = k ELSE 0

S0 == [cells |-> <<>>, structs |-> <<>>, views |-> <<>>, pool |-> <<>>, known |-> <<>>]
Out(s, r) == [s |-> s, r |-> r]
Refused(s) == Out(s, <<"refused">>)

NewCell(s, c) == [s EXCEPT !.cells = Append(s.cells, c)]
Last(s) == Len(s.cells)

\* the value of a field
Image(s, st, i) ==
  LET x == s.structs[st][i] IN
  CASE i \in {1, 2, 4} -> x
    [] x = 0 -> <<"n">>
    [] i = 6 -> <<"s", s.cells[x][2]>>
    [] OTHER -> <<"arr", s.cells[x][2]>>
Images(s, st) == [i \in 1..6 |-> Image(s, st, i)]
\* the value of an argument
Val(s, v) == IF v[1] = "ref" THEN <<"arr", s.cells[s.pool[v[2]]][2]>> ELSE v

\* assign v to field i of struct st: the new state, or <<>> when the field can't hold that
Assign(s, st, i, v) ==
  LET w == Val(s, v)
      set(t, x) == [t EXCEPT !.structs[st][i] = x]
      fresh(c) == LET t == NewCell(s, c) IN <<set(t, Last(t))>> IN
  CASE i = 1 -> IF w[1] = "i" /\ w[2] >= -128 /\ w[2] <= 127 THEN <<set(s, w)>> ELSE <<>>
    [] i = 2 -> IF w[1] = "s" THEN <<set(s, w)>> ELSE <<>>
    [] i = 3 -> IF w[1] = "n" THEN <<set(s, 0)>>
                ELSE IF w[1] = "arr" /\ \A j \in DOMAIN w[2] : w[2][j][1] = "i" THEN fresh(<<"sl", w[2]>>) ELSE <<>>
    [] i = 4 -> <<set(s, w)>>
    [] i = 5 -> IF v[1] = "ref" THEN <<set(s, s.pool[v[2]])>> ELSE <<>>
    [] i = 6 -> IF w[1] = "n" THEN <<set(s, 0)>> ELSE IF w[1] = "s" THEN fresh(<<"ptr", w[2]>>) ELSE <<>>
    [] OTHER -> <<>>

\* a struct that shares nothing that can change with struct st: mode is "freeze" (arrays are frozen in place), "frozen" (arrays
\* are copied if not frozen, the copies are frozen) or "thawed" (arrays are copied)
CopyStruct(s, st, mode) ==
  LET x == s.structs[st]
      cp(t, i) ==   \* <<state, value of field i>>
        IF x[i] = 0 THEN <<t, 0>>
        ELSE IF i # 5 THEN LET u == NewCell(t, s.cells[x[i]]) IN <<u, Last(u)>>
        ELSE IF mode = "freeze" THEN <<[t EXCEPT !.cells[x[i]] = <<@[1], @[2], TRUE>>], x[i]>>
        ELSE IF mode = "frozen" /\ s.cells[x[i]][3] THEN <<t, x[i]>>
        ELSE LET u == NewCell(t, <<"arr", s.cells[x[i]][2], mode = "frozen">>) IN <<u, Last(u)>>
      c3 == cp(s, 3)
      c5 == cp(c3[1], 5)
      c6 == cp(c5[1], 6)
  IN  [c6[1] EXCEPT !.structs = Append(s.structs, <<x[1], x[2], c3[2], x[4], c5[2], c6[2]>>)]
Shallow(s, st) == [s EXCEPT !.structs = Append(@, s.structs[st])]
NewView(s, st, frozen) == [s EXCEPT !.views = Append(@, <<st, frozen>>)]
Know(s, st) == IF \E i \in DOMAIN s.known : s.known[i] = st THEN s ELSE [s EXCEPT !.known = Append(@, st)]
Last2(s) == Len(s.structs)

\* pairs of a map that is made by adding those in ps to those of a struct
Pairs(s, st) == [i \in 1..6 |-> <<<<"s", Fields[i]>>, Image(s, st, i)>>]
RECURSIVE AddPairs(_, _)
AddPairs(es, ps) ==
  IF ps = <<>> THEN es
  ELSE LET p == Head(ps) IN
       IF \E i \in DOMAIN es : es[i][1] = p[1]
       THEN AddPairs([i \in DOMAIN es |-> IF es[i][1] = p[1] THEN <<es[i][1], p[2]>> ELSE es[i]], Tail(ps))
       ELSE AddPairs(Append(es, p), Tail(ps))
RECURSIVE PutAll(_, _, _)
\* the state after the first entries of ps, until one is refused, and whether all were put
PutAll(s, st, ps) ==
  IF ps = <<>> THEN <<s, TRUE>>
  ELSE LET i == FieldNo(ps[1][1])
           a == IF i = 0 THEN <<>> ELSE Assign(s, st, i, ps[1][2]) IN
       IF a = <<>> THEN <<s, FALSE>> ELSE PutAll(a[1], st, Tail(ps))
\* the outcome that is a map: pairs, frozen, and whether all in it is frozen when it is
AMap(es, frozen) == <<"map", es, frozen, TRUE>>

\* what the operation o makes of state s
Do(s, o) ==
  CASE o.op = "reset" -> Out(S0, <<>>)
    [] o.op = "newarr" ->
         LET t == NewCell(s, <<"arr", o.es, o.frozen>>) IN Out([t EXCEPT !.pool = Append(@, Last(t))], <<>>)
    [] o.op = "add" ->
         LET c == s.pool[o.a] IN
         IF s.cells[c][3] THEN Refused(s) ELSE Out([s EXCEPT !.cells[c] = <<@[1], Append(@[2], o.v), FALSE>>], <<>>)
    [] o.op = "struct" ->
         LET t == [s EXCEPT !.structs = Append(@, <<<<"i", 0>>, <<"s", "">>, 0, <<"n">>, 0, 0>>)] IN Out(Know(t, Last2(t)), <<>>)
    \* what a go program does to a struct that it has a pointer to
    [] o.op = "goset" -> LET a == Assign(s, s.known[o.s], FieldNo(o.k), o.v) IN Out(a[1], <<>>)
    [] o.op = "gonil" -> Out([s EXCEPT !.structs[s.known[o.s]][FieldNo(o.k)] = 0], <<>>)
    [] o.op = "goelem" ->
         LET c == s.structs[s.known[o.s]][3] IN Out([s EXCEPT !.cells[c] = <<"sl", [@[2] EXCEPT ![o.i] = o.v]>>], <<>>)
    [] o.op = "goptr" -> LET c == s.structs[s.known[o.s]][6] IN Out([s EXCEPT !.cells[c] = <<"ptr", o.v[2]>>], <<>>)
    [] o.op = "wrap" -> Out(NewView(s, s.known[o.s], FALSE), <<>>)
    [] o.op = "wrapvalue" ->
         LET t == Shallow(s, s.known[o.s]) IN Out(Know(NewView(t, Last2(t), FALSE), Last2(t)), <<>>)
    [] OTHER ->
  LET st == s.views[o.w][1]
      frozen == s.views[o.w][2]
      i == FieldNo(o.k)
  IN
  CASE o.op = "put" ->
         IF frozen \/ i = 0 THEN Refused(s)
         ELSE LET a == Assign(s, st, i, o.v) IN IF a = <<>> THEN Refused(s) ELSE Out(a[1], Image(s, st, i))
    [] o.op = "putall" ->
         IF frozen THEN (IF o.ps = <<>> THEN Out(s, <<>>) ELSE Refused(s))
         ELSE LET r == PutAll(s, st, o.ps) IN Out(r[1], IF r[2] THEN <<>> ELSE <<"refused">>)
    [] o.op \in {"remove", "removeall"} -> Refused(s)
    [] o.op = "freeze" ->
         IF frozen THEN Out(s, <<>>)
         ELSE LET t == CopyStruct(s, st, "freeze") IN Out([t EXCEPT !.views[o.w] = <<Last2(t), TRUE>>], <<>>)
    [] o.op = "frozencopy" ->
         IF frozen THEN Out([s EXCEPT !.views = Append(@, s.views[o.w])], <<>>)
         ELSE LET t == CopyStruct(s, st, "frozen") IN Out(NewView(t, Last2(t), TRUE), <<>>)
    [] o.op = "thawedcopy" -> LET t == CopyStruct(s, st, "thawed") IN Out(Know(NewView(t, Last2(t), FALSE), Last2(t)), <<>>)
    \* a pointer to the struct, but nobody can change what is frozen
    [] o.op = "gostruct" ->
         IF ~frozen THEN Out(Know(s, st), <<>>)
         ELSE LET t == CopyStruct(s, st, "frozen") IN Out(Know(t, Last2(t)), <<>>)
    [] o.op = "reflectvalue" ->
         LET t == IF frozen THEN CopyStruct(s, st, "frozen") ELSE Shallow(s, st) IN Out(Know(t, Last2(t)), <<>>)
    [] o.op = "with" -> Out(s, AMap(AddPairs(Pairs(s, st), <<<<<<"s", o.k>>, Val(s, o.v)>>>>), frozen))
    [] o.op = "without" ->
         Out(s, IF i = 0 THEN <<"same">> ELSE AMap(SelectSeq(Pairs(s, st), LAMBDA p : p[1] # <<"s", o.k>>), frozen))
    [] o.op = "withoutall" ->
         Out(s, AMap(SelectSeq(Pairs(s, st), LAMBDA p : \A j \in DOMAIN o.ks : p[1] # <<"s", o.ks[j]>>), frozen))
    [] o.op = "merge" ->
         Out(s, IF o.ps = <<>> THEN <<"same">>
                ELSE AMap(AddPairs(Pairs(s, st), [j \in DOMAIN o.ps |-> <<<<"s", o.ps[j][1]>>, Val(s, o.ps[j][2])>>]), frozen))
    [] o.op = "map" -> Out(s, AMap([j \in 1..6 |-> <<Pairs(s, st)[j][1], Val(s, o.v)>>], frozen))
    [] o.op = "read" -> Out(s, <<"read", Pairs(s, st), frozen>>)
    [] OTHER -> Out(s, <<"unexpected">>)

-----------------------------------------------------------------------------
\* The state as the caller sees it. Cells are numbered in the order in which they are met, empty slices can't be told apart.
Ref(s, x) == IF x = 0 THEN 0 ELSE IF s.cells[x][1] = "sl" /\ s.cells[x][2] = <<>> THEN -1 ELSE x
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Met(s) ==
  Flat([j \in DOMAIN s.known |-> LET x == s.structs[s.known[j]] IN <<x[3], x[5], x[6]>>])
  \o [j \in DOMAIN s.views |-> s.structs[s.views[j][1]][5]] \o s.pool
RECURSIVE Distinct(_, _, _)
Distinct(s, xs, acc) ==
  IF xs = <<>> THEN acc
  ELSE IF Ref(s, Head(xs)) \in {0, -1} \/ (\E j \in DOMAIN acc : acc[j] = Head(xs)) THEN Distinct(s, Tail(xs), acc)
  ELSE Distinct(s, Tail(xs), Append(acc, Head(xs)))
Seen(s) ==
  LET ds == Distinct(s, Met(s), <<>>)
      no(x) == IF Ref(s, x) \in {0, -1} THEN Ref(s, x) ELSE CHOOSE j \in DOMAIN ds : ds[j] = x IN
  [structs |-> [j \in DOMAIN s.known |-> LET x == s.structs[s.known[j]] IN <<x[1], x[2], no(x[3]), x[4], no(x[5]), no(x[6])>>],
   views |-> [j \in DOMAIN s.views |->
               LET v == s.views[j]
                   im == Images(s, v[1]) IN <<v[2], [im EXCEPT ![5] = <<"cell", no(s.structs[v[1]][5])>>]>>],
   pool |-> [j \in DOMAIN s.pool |-> no(s.pool[j])],
   cells |-> [j \in DOMAIN ds |-> s.cells[ds[j]]]]
=============================================================================
