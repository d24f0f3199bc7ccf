-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* The collection machine of dgo: the abstract state is a heap of arrays   *)
(* and maps, each with a frozen bit, and every public operation of         *)
(* dgo.Array and dgo.Map is one deterministic transition Step(H, o) that   *)
(* yields the next heap and the result of the call.                        *)
(*                                                                         *)
(* Values are tuples whose first element is a tag:                         *)
(*   <<"n">>  <<"b",B>>  <<"i",n>>  <<"f",n>> (n quarters)  <<"s",codes>>  *)
(*   <<"r",id>>     reference to heap object id                            *)
(*   <<"fa",vs>>    frozen array, by value                                 *)
(*   <<"fm",kvs>>   frozen map, by value                                   *)
(* Frozen collections carry no observable identity and are therefore       *)
(* represented by value; mutable collections are always references.        *)
(*                                                                         *)
(* A heap object is [k |-> "a" | "m", f |-> frozen, e |-> elements].       *)
(* A map's elements are <<key, value>> pairs in insertion order.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nil == <<"n">>
Panic == <<"panic">>
None == <<"none">>
B(x) == <<"b", x>>
I(x) == <<"i", x>>
Void == <<"void">>

IsRef(v) == v[1] = "r"
IsColl(v) == v[1] \in {"r", "fa", "fm"}
IsArr(H, v) == \/ v[1] = "fa"
               \/ v[1] = "r" /\ H[v[2]].k = "a"
IsMap(H, v) == \/ v[1] = "fm"
               \/ v[1] = "r" /\ H[v[2]].k = "m"

\* Elements of a collection value
Elems(H, v) == IF v[1] = "r" THEN H[v[2]].e ELSE v[2]

SeqMap(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]

RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAt(s, i, v) == SubSeq(s, 1, i - 1) \o <<v>> \o SubSeq(s, i, Len(s))

\* Deep equality. Arrays are equal element by element, maps are equal when they have the same
\* key-value associations regardless of order.
RECURSIVE Eq(_, _, _)
Eq(H, v, w) ==
  IF IsColl(v) /\ IsColl(w) THEN
    IF IsArr(H, v) THEN
      /\ IsArr(H, w)
      /\ LET a == Elems(H, v) b == Elems(H, w) IN
           /\ Len(a) = Len(b)
           /\ \A i \in 1..Len(a) : Eq(H, a[i], b[i])
    ELSE
      /\ IsMap(H, w)
      /\ LET a == Elems(H, v) b == Elems(H, w) IN
           /\ Len(a) = Len(b)
           /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : Eq(H, a[i][1], b[j][1]) /\ Eq(H, a[i][2], b[j][2])
  ELSE ~IsColl(v) /\ ~IsColl(w) /\ v = w

\* Index of the first element that equals v, zero when there is none
IndexOf(H, s, v) ==
  LET S == {i \in 1..Len(s) : Eq(H, s[i], v)} IN
  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

\* Index of the entry that has the given key, zero when there is none
KeyIndex(H, es, k) ==
  LET S == {i \in 1..Len(es) : Eq(H, es[i][1], k)} IN
  IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

\* Presentation form of a value: references to frozen objects are replaced by their contents
RECURSIVE Norm(_, _)
Norm(H, v) ==
  IF v[1] = "r" THEN
    IF H[v[2]].f
    THEN IF H[v[2]].k = "a"
         THEN <<"fa", [i \in 1..Len(H[v[2]].e) |-> Norm(H, H[v[2]].e[i])]>>
         ELSE <<"fm", [i \in 1..Len(H[v[2]].e) |-> <<Norm(H, H[v[2]].e[i][1]), Norm(H, H[v[2]].e[i][2])>>]>>
    ELSE v
  ELSE IF v[1] = "fa" THEN <<"fa", [i \in 1..Len(v[2]) |-> Norm(H, v[2][i])]>>
  ELSE IF v[1] = "fm" THEN <<"fm", [i \in 1..Len(v[2]) |-> <<Norm(H, v[2][i][1]), Norm(H, v[2][i][2])>>]>>
  ELSE v

NormHeap(H) ==
  [i \in 1..Len(H) |->
    [k |-> H[i].k, f |-> H[i].f,
     e |-> IF H[i].k = "a"
           THEN [j \in 1..Len(H[i].e) |-> Norm(H, H[i].e[j])]
           ELSE [j \in 1..Len(H[i].e) |-> <<Norm(H, H[i].e[j][1]), Norm(H, H[i].e[j][2])>>]]]

\* The frozen copy of a value: deep, by value
RECURSIVE FrozenCopy(_, _)
FrozenCopy(H, v) ==
  IF ~IsColl(v) THEN v
  ELSE IF IsArr(H, v) THEN <<"fa", [i \in 1..Len(Elems(H, v)) |-> FrozenCopy(H, Elems(H, v)[i])]>>
  ELSE <<"fm", [i \in 1..Len(Elems(H, v)) |-> <<FrozenCopy(H, Elems(H, v)[i][1]), FrozenCopy(H, Elems(H, v)[i][2])>>]>>

\* Freezing is deep and happens in place
RECURSIVE FreezeAll(_, _)
RECURSIVE FreezeSeq(_, _)
FreezeAll(H, v) ==
  IF v[1] # "r" \/ H[v[2]].f THEN H
  ELSE LET o == H[v[2]]
           H1 == [H EXCEPT ![v[2]].f = TRUE]
       IN FreezeSeq(H1, IF o.k = "a" THEN o.e ELSE [i \in 1..Len(o.e) |-> o.e[i][2]])
FreezeSeq(H, s) == IF s = <<>> THEN H ELSE FreezeSeq(FreezeAll(H, Head(s)), Tail(s))

\* The thawed copy of a value: every collection in it is copied to a new mutable object. Map keys
\* stay frozen. Yields <<heap, value>>. New objects are numbered in pre-order.
RECURSIVE ThawCopy(_, _)
RECURSIVE ThawSeq(_, _, _)
ThawCopy(H, v) ==
  IF ~IsColl(v) THEN <<H, v>>
  ELSE LET id == Len(H) + 1
           es == Elems(H, v)
           arr == IsArr(H, v)
           vs == IF arr THEN es ELSE [i \in 1..Len(es) |-> es[i][2]]
           r == ThawSeq(Append(H, [k |-> IF arr THEN "a" ELSE "m", f |-> FALSE, e |-> <<>>]), vs, <<>>)
           ne == IF arr THEN r[2] ELSE [i \in 1..Len(es) |-> <<es[i][1], r[2][i]>>]
       IN <<[r[1] EXCEPT ![id].e = ne], <<"r", id>>>>
ThawSeq(H, s, acc) ==
  IF s = <<>> THEN <<H, acc>>
  ELSE LET r == ThawCopy(H, Head(s)) IN ThawSeq(r[1], Tail(s), Append(acc, r[2]))

FrozenSeq(H, s) == [i \in 1..Len(s) |-> FrozenCopy(H, s[i])]

\* A step outcome
Out(H, r) == [h |-> H, r |-> r]
\* A step outcome where the result is a new collection. <<"new", id>> denotes a collection result, as opposed to
\* <<"r", id>> which denotes a value that is found in a collection
NewColl(H, k, f, es) == Out(Append(H, [k |-> k, f |-> f, e |-> es]), <<"new", Len(H) + 1>>)
\* A step outcome where the result is the given (registered) collection itself. An immutable collection has no
\* identity so it's represented by a new reference with the same content.
Same(H, id) == IF H[id].f THEN NewColl(H, H[id].k, TRUE, H[id].e) ELSE Out(H, <<"new", id>>)

Set(H, id, es) == [H EXCEPT ![id].e = es]

---------------------------------------------------------------------------
(* Predicates and mappers that are passed to the higher order operations   *)

Pred(H, p, v) ==
  CASE p[1] = "T" -> TRUE
    [] p[1] = "F" -> FALSE
    [] p[1] = "isI" -> v[1] = "i"
    [] p[1] = "isS" -> v[1] = "s"
    [] p[1] = "isC" -> IsColl(v)
    [] p[1] = "eq" -> Eq(H, v, p[2])
    [] p[1] = "ne" -> ~Eq(H, v, p[2])

\* Result of mapping, as <<heap, values>>. The "wrap" mapper produces a new mutable array holding the value
RECURSIVE MapSeq(_, _, _, _, _)
MapSeq(H, fz, m, s, acc) ==
  IF s = <<>> THEN <<H, acc>>
  ELSE CASE m[1] = "id" -> MapSeq(H, fz, m, Tail(s), Append(acc, IF fz THEN FrozenCopy(H, Head(s)) ELSE Head(s)))
         [] m[1] = "nil" -> MapSeq(H, fz, m, Tail(s), Append(acc, Nil))
         [] m[1] = "c" -> MapSeq(H, fz, m, Tail(s), Append(acc, IF fz THEN FrozenCopy(H, m[2]) ELSE m[2]))
         [] m[1] = "wrap" ->
              IF fz THEN MapSeq(H, fz, m, Tail(s), Append(acc, <<"fa", <<FrozenCopy(H, Head(s))>>>>))
              ELSE MapSeq(Append(H, [k |-> "a", f |-> FALSE, e |-> <<Head(s)>>]), fz, m, Tail(s),
                          Append(acc, <<"r", Len(H) + 1>>))

RECURSIVE Flat(_, _)
Flat(H, s) ==
  IF s = <<>> THEN <<>>
  ELSE (IF IsColl(Head(s)) /\ IsArr(H, Head(s)) THEN Flat(H, Elems(H, Head(s))) ELSE <<Head(s)>>) \o Flat(H, Tail(s))

RECURSIVE Uniq(_, _, _)
Uniq(H, s, acc) ==
  IF s = <<>> THEN acc
  ELSE Uniq(H, Tail(s), IF IndexOf(H, acc, Head(s)) > 0 THEN acc ELSE Append(acc, Head(s)))

\* multiset inclusion: every element of s has its own equal counterpart in t
RECURSIVE Within(_, _, _)
Within(H, s, t) ==
  IF s = <<>> THEN TRUE
  ELSE LET i == IndexOf(H, t, Head(s)) IN i > 0 /\ Within(H, Tail(s), RemoveAt(t, i))

SelectBy(H, s, p, want) == SelectSeq(s, LAMBDA v : Pred(H, p, v) = want)

CountBy(H, s, p) == Cardinality({i \in 1..Len(s) : Pred(H, p, s[i])})

\* Lexicographic order of code sequences
RECURSIVE CodesLess(_, _)
CodesLess(a, b) ==
  IF b = <<>> THEN FALSE
  ELSE IF a = <<>> THEN TRUE
  ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
  ELSE CodesLess(Tail(a), Tail(b))

Num(v) == IF v[1] = "i" THEN 4 * v[2] ELSE v[2]
Less(v, w) == IF v[1] = "s" THEN CodesLess(v[2], w[2]) ELSE Num(v) < Num(w)
\* Position of element i in the stable sort of s
Rank(s, i) == 1 + Cardinality({j \in 1..Len(s) : Less(s[j], s[i]) \/ (~Less(s[i], s[j]) /\ j < i)})
Sorted(s) == [p \in 1..Len(s) |-> s[CHOOSE i \in 1..Len(s) : Rank(s, i) = p]]

\* Associate keys with values, last one wins, position of first
RECURSIVE PutAll(_, _, _)
PutAll(H, es, kvs) ==
  IF kvs = <<>> THEN es
  ELSE LET kv == Head(kvs)
           i == KeyIndex(H, es, kv[1])
           ne == IF i > 0 THEN [es EXCEPT ![i] = <<es[i][1], kv[2]>>]
                 ELSE Append(es, <<FrozenCopy(H, kv[1]), kv[2]>>)
       IN PutAll(H, ne, Tail(kvs))

RemoveKeys(H, es, ks) == SelectSeq(es, LAMBDA e : IndexOf(H, ks, e[1]) = 0)

Pairs(s) == [i \in 1..((Len(s) + 1) \div 2) |-> <<s[2*i-1], IF 2*i <= Len(s) THEN s[2*i] ELSE Nil>>]

\* The key-value pairs that are added when an iterable (an array or a map) is iterated
Iterated(H, v) == Elems(H, v)

---------------------------------------------------------------------------
(* Array operations. a is the id of the receiver                           *)

ArrayOps == {"Add", "AddAll", "AddValues", "Insert", "Set", "Remove", "RemoveValue", "Pop", "With", "WithAll",
  "WithValues", "Slice", "Select", "Reject", "AMap", "Flatten", "Unique", "Sort", "ACopy", "ToMap",
  "FromPairs", "AGet", "ALen", "IndexOf", "ContainsAll", "SameValues", "AAll", "AAny", "AOne", "AFind", "Reduce",
  "AEach", "EachWithIndex", "AppendToSlice", "GoSlice", "GoSliceSet", "InterfaceSlice"}

ArrayStep(H, o) ==
  LET a == o.a
      s == H[a].e
      fz == H[a].f
      n == Len(s)
  IN
  CASE o.op = "Add" -> IF fz THEN Out(H, Panic) ELSE Out(Set(H, a, Append(s, o.v)), Void)
    [] o.op = "AddAll" -> IF fz THEN Out(H, Panic) ELSE Out(Set(H, a, s \o H[o.src].e), Void)
    [] o.op = "AddValues" -> IF fz THEN Out(H, Panic) ELSE Out(Set(H, a, s \o o.vs), Void)
    [] o.op = "Insert" ->
         IF fz \/ o.n < 0 \/ o.n > n THEN Out(H, Panic)
         ELSE Out(Set(H, a, InsertAt(s, o.n + 1, o.v)), Void)
    [] o.op = "Set" ->
         IF fz \/ o.n < 0 \/ o.n >= n THEN Out(H, Panic)
         ELSE Out(Set(H, a, [s EXCEPT ![o.n + 1] = o.v]), s[o.n + 1])
    [] o.op = "Remove" ->
         IF fz THEN Out(H, Panic)
         ELSE IF o.n < 0 \/ o.n >= n THEN Out(H, None)
         ELSE Out(Set(H, a, RemoveAt(s, o.n + 1)), s[o.n + 1])
    [] o.op = "RemoveValue" ->
         IF fz THEN Out(H, Panic)
         ELSE LET i == IndexOf(H, s, o.v) IN
              IF i = 0 THEN Out(H, B(FALSE)) ELSE Out(Set(H, a, RemoveAt(s, i)), B(TRUE))
    [] o.op = "Pop" ->
         IF fz THEN Out(H, Panic)
         ELSE IF n = 0 THEN Out(H, None)
         ELSE Out(Set(H, a, SubSeq(s, 1, n - 1)), s[n])
    [] o.op = "With" -> NewColl(H, "a", fz, Append(s, IF fz THEN FrozenCopy(H, o.v) ELSE o.v))
    [] o.op = "WithValues" ->
         IF o.vs = <<>> THEN Same(H, a) ELSE NewColl(H, "a", fz, s \o (IF fz THEN FrozenSeq(H, o.vs) ELSE o.vs))
    [] o.op = "WithAll" ->
         LET add == H[o.src].e IN
         IF add = <<>> THEN Same(H, a)
         ELSE IF fz THEN NewColl(H, "a", TRUE, s \o FrozenSeq(H, add))
         ELSE LET r == ThawCopy(H, <<"r", a>>)
              IN Out(Set(r[1], r[2][2], r[1][r[2][2]].e \o add), <<"new", r[2][2]>>)
    [] o.op = "Slice" ->
         IF o.n < 0 \/ o.m < o.n \/ o.m > n THEN Out(H, Panic)
         ELSE NewColl(H, "a", fz, SubSeq(s, o.n + 1, o.m))
    [] o.op = "Select" -> NewColl(H, "a", fz, SelectBy(H, s, o.p, TRUE))
    [] o.op = "Reject" -> NewColl(H, "a", fz, SelectBy(H, s, o.p, FALSE))
    [] o.op = "AMap" ->
         IF fz THEN NewColl(H, "a", TRUE, MapSeq(H, TRUE, o.p, s, <<>>)[2])
         ELSE LET H1 == Append(H, [k |-> "a", f |-> FALSE, e |-> <<>>])
                  r == MapSeq(H1, FALSE, o.p, s, <<>>)
              IN Out(Set(r[1], Len(H1), r[2]), <<"new", Len(H1)>>)
    [] o.op = "Flatten" ->
         IF \E i \in 1..n : IsColl(s[i]) /\ IsArr(H, s[i]) THEN NewColl(H, "a", fz, Flat(H, s)) ELSE Same(H, a)
    [] o.op = "Unique" ->
         LET u == Uniq(H, s, <<>>) IN IF Len(u) = n THEN Same(H, a) ELSE NewColl(H, "a", fz, u)
    [] o.op = "Sort" -> IF n < 2 THEN Same(H, a) ELSE NewColl(H, "a", fz, Sorted(s))
    [] o.op = "ACopy" ->
         IF o.fz THEN NewColl(H, "a", TRUE, FrozenSeq(H, s))
         ELSE LET r == ThawCopy(H, <<"r", a>>) IN Out(r[1], <<"new", r[2][2]>>)
    [] o.op = "ToMap" -> NewColl(H, "m", fz, PutAll(H, <<>>, Pairs(s)))
    [] o.op = "FromPairs" ->
         IF \A i \in 1..n : IsColl(s[i]) /\ IsArr(H, s[i]) /\ Len(Elems(H, s[i])) = 2
         THEN NewColl(H, "m", fz, PutAll(H, <<>>, [i \in 1..n |-> Elems(H, s[i])]))
         ELSE Out(H, None)
    [] o.op = "AGet" -> IF o.n < 0 \/ o.n >= n THEN Out(H, Panic) ELSE Out(H, s[o.n + 1])
    [] o.op = "ALen" -> Out(H, I(n))
    [] o.op = "IndexOf" -> Out(H, I(IndexOf(H, s, o.v) - 1))
    [] o.op = "ContainsAll" -> Out(H, B(Within(H, H[o.src].e, s)))
    [] o.op = "SameValues" -> Out(H, B(n = Len(H[o.src].e) /\ Within(H, H[o.src].e, s)))
    [] o.op = "AAll" -> Out(H, B(CountBy(H, s, o.p) = n))
    [] o.op = "AAny" -> Out(H, B(CountBy(H, s, o.p) > 0))
    [] o.op = "AOne" -> Out(H, B(CountBy(H, s, o.p) = 1))
    [] o.op = "AFind" ->
         LET x == SelectBy(H, s, o.p, TRUE) IN Out(H, IF x = <<>> THEN None ELSE x[1])
    \* a reduction that collects the memo and all elements proves that each element is visited once, in order
    [] o.op = "Reduce" -> Out(H, <<"l", <<o.v>> \o s>>)
    [] o.op \in {"AEach", "AppendToSlice", "GoSlice", "InterfaceSlice"} -> Out(H, <<"l", s>>)
    [] o.op = "EachWithIndex" -> Out(H, <<"l", [i \in 1..n |-> <<"l", <<I(i - 1), s[i]>>>>]>>)
    \* assigning to the slice that GoSlice returns is visible unless the array is frozen
    [] o.op = "GoSliceSet" ->
         IF o.n < 0 \/ o.n >= n THEN Out(H, Panic)
         ELSE Out(IF fz THEN H ELSE Set(H, a, [s EXCEPT ![o.n + 1] = o.v]), Void)

---------------------------------------------------------------------------
(* Map operations. a is the id of the receiver                             *)

MapOps == {"Put", "PutAll", "MRemove", "RemoveAll", "MWith", "Without", "WithoutAll", "Merge", "MMap", "MCopy", "Keys",
  "Values", "MGet", "ContainsKey", "MLen", "MAll", "MAllKeys", "MAllValues", "MAny", "MAnyKey", "MAnyValue", "MFind",
  "MEach", "EachEntry", "EachKey", "EachValue", "StringKeys", "EntriesToMap", "EntryFrozenCopy", "EntryThawedCopy",
  "EntryFreeze"}

Keys(es) == [i \in 1..Len(es) |-> es[i][1]]
Vals(es) == [i \in 1..Len(es) |-> es[i][2]]
ListOf(es) == <<"l", [i \in 1..Len(es) |-> <<"l", es[i]>>]>>

\* an entry predicate applies the predicate to the key (o.on = "k") or the value
On(o, e) == IF o.on = "k" THEN e[1] ELSE e[2]

MapStep(H, o) ==
  LET a == o.a
      s == H[a].e
      fz == H[a].f
      n == Len(s)
      k == IF "k" \in DOMAIN o THEN KeyIndex(H, s, o.k) ELSE 0
      hits == {i \in 1..n : Pred(H, o.p, On(o, s[i]))}
  IN
  CASE o.op = "Put" ->
         IF fz THEN Out(H, Panic)
         ELSE Out(Set(H, a, PutAll(H, s, <<<<o.k, o.v>>>>)), IF k = 0 THEN None ELSE s[k][2])
    [] o.op = "PutAll" ->
         LET add == H[o.src].e IN
         IF add = <<>> THEN Out(H, Void)
         ELSE IF fz THEN Out(H, Panic)
         ELSE Out(Set(H, a, PutAll(H, s, add)), Void)
    [] o.op = "MRemove" ->
         IF fz THEN Out(H, Panic)
         ELSE IF k = 0 THEN Out(H, None)
         ELSE Out(Set(H, a, RemoveAt(s, k)), s[k][2])
    [] o.op = "RemoveAll" ->
         IF fz THEN Out(H, Panic) ELSE Out(Set(H, a, RemoveKeys(H, s, H[o.src].e)), Void)
    [] o.op = "MWith" ->
         IF k > 0 /\ Eq(H, s[k][2], o.v) THEN Same(H, a)
         ELSE NewColl(H, "m", fz, PutAll(H, s, <<<<o.k, IF fz THEN FrozenCopy(H, o.v) ELSE o.v>>>>))
    [] o.op = "Without" -> IF k = 0 THEN Same(H, a) ELSE NewColl(H, "m", fz, RemoveAt(s, k))
    [] o.op = "WithoutAll" ->
         LET r == RemoveKeys(H, s, H[o.src].e) IN
         IF Len(r) = n THEN Same(H, a) ELSE NewColl(H, "m", fz, r)
    [] o.op = "Merge" ->
         LET add == H[o.src].e IN
         IF add = <<>> \/ o.src = a THEN Same(H, a)
         ELSE IF n = 0 THEN Same(H, o.src)
         ELSE NewColl(H, "m", fz, PutAll(H, s, IF fz THEN [i \in 1..Len(add) |-> <<add[i][1], FrozenCopy(H, add[i][2])>>]
                                                ELSE add))
    [] o.op = "MMap" ->
         IF fz THEN LET r == MapSeq(H, TRUE, o.p, Vals(s), <<>>)[2]
                    IN NewColl(H, "m", TRUE, [i \in 1..n |-> <<s[i][1], r[i]>>])
         ELSE LET H1 == Append(H, [k |-> "m", f |-> FALSE, e |-> <<>>])
                  r == MapSeq(H1, FALSE, o.p, Vals(s), <<>>)
              IN Out(Set(r[1], Len(H1), [i \in 1..n |-> <<s[i][1], r[2][i]>>]), <<"new", Len(H1)>>)
    [] o.op = "MCopy" ->
         IF o.fz THEN NewColl(H, "m", TRUE, FrozenCopy(H, <<"r", a>>)[2])
         ELSE LET r == ThawCopy(H, <<"r", a>>) IN Out(r[1], <<"new", r[2][2]>>)
    [] o.op = "Keys" -> NewColl(H, "a", TRUE, Keys(s))
    [] o.op = "Values" -> NewColl(H, "a", fz, Vals(s))
    [] o.op = "MGet" -> Out(H, IF k = 0 THEN None ELSE s[k][2])
    [] o.op = "ContainsKey" -> Out(H, B(k > 0))
    [] o.op = "MLen" -> Out(H, I(n))
    [] o.op \in {"MAll", "MAllKeys", "MAllValues"} -> Out(H, B(Cardinality(hits) = n))
    [] o.op \in {"MAny", "MAnyKey", "MAnyValue"} -> Out(H, B(hits # {}))
    [] o.op = "MFind" ->
         Out(H, IF hits = {} THEN None ELSE <<"l", s[CHOOSE i \in hits : \A j \in hits : i <= j]>>)
    [] o.op \in {"MEach", "EachEntry"} -> Out(H, ListOf(s))
    [] o.op = "EachKey" -> Out(H, <<"l", Keys(s)>>)
    [] o.op = "EachValue" -> Out(H, <<"l", Vals(s)>>)
    [] o.op = "StringKeys" -> Out(H, B(\A i \in 1..n : s[i][1][1] = "s"))
    \* a new map built from the entries of this map
    [] o.op = "EntriesToMap" ->
         LET es == PutAll(H, <<>>, s) IN
         NewColl(H, "m", o.fz, IF o.fz THEN FrozenCopy(H, <<"r", a>>)[2] ELSE es)
    \* copies of an entry are independent of the map that the entry stems from
    [] o.op = "EntryFrozenCopy" ->
         Out(H, IF k = 0 THEN None ELSE <<"l", <<s[k][1], FrozenCopy(H, s[k][2])>>>>)
    [] o.op = "EntryThawedCopy" ->
         IF k = 0 THEN Out(H, None)
         ELSE LET r == ThawCopy(H, s[k][2]) IN Out(r[1], <<"l", <<s[k][1], r[2]>>>>)
    [] o.op = "EntryFreeze" ->
         IF k = 0 THEN Out(H, None) ELSE Out(FreezeAll(H, s[k][2]), Void)

---------------------------------------------------------------------------
(* Operations that are common to arrays and maps, and constructors         *)

CommonOps == {"Freeze", "Frozen", "Equals", "NewArr", "NewMap", "NewMapFrom", "NewMapGo", "ArrFrom"}

CommonStep(H, o) ==
  CASE o.op = "Freeze" -> Out(FreezeAll(H, <<"r", o.a>>), Void)
    [] o.op = "Frozen" -> Out(H, B(H[o.a].f))
    [] o.op = "Equals" -> Out(H, B(Eq(H, <<"r", o.a>>, o.v)))
    [] o.op = "NewArr" -> NewColl(H, "a", o.fz, IF o.fz THEN FrozenSeq(H, o.vs) ELSE o.vs)
    \* a map from a flat list of keys and values
    [] o.op = "NewMap" -> NewColl(H, "m", o.fz, PutAll(H, <<>>, Pairs(IF o.fz THEN FrozenSeq(H, o.vs) ELSE o.vs)))
    \* a map from an array of keys and values
    [] o.op = "NewMapFrom" ->
         LET s == H[o.a].e IN
         IF Len(s) % 2 = 1 THEN Out(H, Panic)
         ELSE NewColl(H, "m", o.fz, PutAll(H, <<>>, Pairs(IF o.fz THEN FrozenSeq(H, s) ELSE s)))
    \* a map from a go map[string]interface{} or map[int]interface{}: sorted on the natural order of its keys
    [] o.op = "NewMapGo" ->
         NewColl(H, "m", o.fz,
           LET ks == Keys(o.es)
               so == Sorted(ks)
               es == [i \in 1..Len(ks) |-> o.es[CHOOSE j \in 1..Len(ks) : ks[j] = so[i]]]
           IN IF o.fz THEN [i \in 1..Len(es) |-> <<es[i][1], FrozenCopy(H, es[i][2])>>] ELSE es)
    \* vf.Array: a frozen copy
    [] o.op = "ArrFrom" -> NewColl(H, "a", TRUE, FrozenSeq(H, H[o.a].e))

Step(H, o) ==
  IF o.op \in CommonOps THEN CommonStep(H, o)
  ELSE IF o.op \in ArrayOps THEN ArrayStep(H, o)
  ELSE MapStep(H, o)

\* Presentation form of a result
RECURSIVE NormR(_, _)
NormR(H, r) ==
  CASE r[1] = "l" -> <<"l", [i \in 1..Len(r[2]) |-> NormR(H, r[2][i])]>>
    [] r[1] = "new" -> r
    [] OTHER -> Norm(H, r)

---------------------------------------------------------------------------
(* Properties of the machine                                               *)

\* Well-formed: references resolve, keys are unique and deeply frozen
RECURSIVE DeepFrozen(_, _)
DeepFrozen(H, v) ==
  CASE v[1] = "r" -> H[v[2]].f
    [] v[1] = "fa" -> \A i \in 1..Len(v[2]) : DeepFrozen(H, v[2][i])
    [] v[1] = "fm" -> \A i \in 1..Len(v[2]) : DeepFrozen(H, v[2][i][1]) /\ DeepFrozen(H, v[2][i][2])
    [] OTHER -> TRUE

KeysUnique(H) ==
  \A id \in 1..Len(H) : H[id].k = "m" =>
    \A i, j \in 1..Len(H[id].e) : i # j => ~Eq(H, H[id].e[i][1], H[id].e[j][1])
KeysFrozen(H) ==
  \A id \in 1..Len(H) : H[id].k = "m" => \A i \in 1..Len(H[id].e) : DeepFrozen(H, H[id].e[i][1])
\* The content of a frozen object is frozen
FrozenIsDeep(H) ==
  \A id \in 1..Len(H) : H[id].f =>
    \A i \in 1..Len(H[id].e) :
      IF H[id].k = "a" THEN DeepFrozen(H, H[id].e[i])
      ELSE DeepFrozen(H, H[id].e[i][1]) /\ DeepFrozen(H, H[id].e[i][2])

\* Action properties, over a step from H to H2
\* A frozen object never changes
FrozenForever(H, H2) ==
  \A id \in 1..Len(H) : H[id].f => H2[id].f /\ NormHeap(H2)[id].e = NormHeap(H)[id].e
\* An operation that isn't a mutator leaves every existing object as it was
Mutators == {"Add", "AddAll", "AddValues", "Insert", "Set", "Remove", "RemoveValue", "Pop", "GoSliceSet",
  "Put", "PutAll", "MRemove", "RemoveAll", "Freeze", "EntryFreeze"}
OnlyMutatorsMutate(H, o, H2) ==
  o.op \notin Mutators => \A id \in 1..Len(H) : H2[id] = H[id]
\* A mutator changes nothing but its receiver (Freeze also reaches what the receiver contains)
MutatesReceiverOnly(H, o, H2) ==
  o.op \in Mutators \ {"Freeze", "EntryFreeze"} =>
     /\ Len(H2) = Len(H)
     /\ \A id \in 1..Len(H) : id # o.a => H2[id] = H[id]
\* A mutable result is either one of the operands or a new object
FreshResult(H, o, H2, r) ==
  r[1] = "new" =>
     \/ r[2] = Len(H) + 1
     \/ r[2] = o.a /\ ~H[r[2]].f
     \/ o.op = "Merge" /\ r[2] = o.src /\ ~H[r[2]].f
=============================================================================
