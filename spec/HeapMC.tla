------------------------------- MODULE HeapMC -------------------------------
(***************************************************************************)
(* Exhaustive exploration of the heap machine: every sequence of at most   *)
(* Depth operations, drawn from the vocabulary of a profile, starting from *)
(* a few small heaps. The invariants and action properties of the machine  *)
(* are checked on every transition, and each transition is emitted as      *)
(* JSON together with a shortest path to it so that it can be performed    *)
(* on real dgo collections.                                                *)
(***************************************************************************)
EXTENDS Heap, Json, IOUtils

Profile == IOEnv.PROFILE
Depth == atoi(IOEnv.DEPTH)
\* A transition is emitted when its number modulo Mod is Rem
Mod == atoi(IOEnv.MOD)

VARIABLES H, hist, last
vars == <<H, hist, last>>
view == H

S(x) == <<"s", x>>
KA == S(<<97>>)
KB == S(<<98>>)
MaxObjs == 5

Refs(HH) == {<<"r", i>> : i \in 1..Len(HH)}
Scalars == {I(0), I(1)}
Keys2 == {KA, KB}
Seeds ==
  CASE Profile = "P01" -> {
         <<[op |-> "NewMap", fz |-> FALSE, vs |-> <<>>]>>,
         <<[op |-> "NewMap", fz |-> FALSE, vs |-> <<KA, I(0)>>], [op |-> "NewMap", fz |-> TRUE, vs |-> <<KB, I(1), KA, I(1)>>]>>,
         <<[op |-> "NewMap", fz |-> TRUE, vs |-> <<KA, I(0), KB, I(1)>>], [op |-> "NewArr", fz |-> FALSE, vs |-> <<KA, KB>>]>>,
         <<[op |-> "NewArr", fz |-> FALSE, vs |-> <<KA, I(1), KB, KA, KA, I(0)>>]>> }
    [] Profile = "P02" -> {
         <<[op |-> "NewArr", fz |-> FALSE, vs |-> <<>>]>>,
         <<[op |-> "NewArr", fz |-> FALSE, vs |-> <<I(1), I(0)>>], [op |-> "NewArr", fz |-> TRUE, vs |-> <<I(1)>>]>>,
         <<[op |-> "NewArr", fz |-> TRUE, vs |-> <<I(1), I(0), I(1)>>], [op |-> "NewArr", fz |-> FALSE, vs |-> <<I(1), I(1)>>]>> }
    [] Profile = "P03" -> {
         <<[op |-> "NewArr", fz |-> FALSE, vs |-> <<I(0)>>], [op |-> "NewArr", fz |-> FALSE, vs |-> <<<<"r", 1>>>>]>>,
         <<[op |-> "NewArr", fz |-> FALSE, vs |-> <<I(0)>>], [op |-> "NewMap", fz |-> FALSE, vs |-> <<KA, <<"r", 1>>>>]>>,
         <<[op |-> "NewArr", fz |-> TRUE, vs |-> <<I(0)>>], [op |-> "NewMap", fz |-> FALSE, vs |-> <<KA, I(0)>>]>> }
    [] OTHER -> {
         <<[op |-> "NewArr", fz |-> FALSE, vs |-> <<I(0)>>], [op |-> "NewArr", fz |-> FALSE, vs |-> <<<<"r", 1>>>>]>>,
         <<[op |-> "NewArr", fz |-> FALSE, vs |-> <<I(0)>>], [op |-> "NewMap", fz |-> FALSE, vs |-> <<KA, <<"r", 1>>>>]>>,
         <<[op |-> "NewMap", fz |-> FALSE, vs |-> <<KA, I(0)>>], [op |-> "NewArr", fz |-> TRUE, vs |-> <<<<"r", 1>>>>]>> }

RECURSIVE Play(_, _)
Play(HH, p) == IF p = <<>> THEN HH ELSE Play(Step(HH, Head(p)).h, Tail(p))

Arrs(HH) == {i \in 1..Len(HH) : HH[i].k = "a"}
Maps(HH) == {i \in 1..Len(HH) : HH[i].k = "m"}
Small == [x \in {"a", "m"} |-> 4]

\* does v contain (a reference to) object id
RECURSIVE Reaches(_, _, _)
Reaches(HH, v, id) ==
  /\ v[1] = "r"
  /\ \/ v[2] = id
     \/ \E i \in 1..Len(HH[v[2]].e) :
          IF HH[v[2]].k = "a" THEN Reaches(HH, HH[v[2]].e[i], id) ELSE Reaches(HH, HH[v[2]].e[i][2], id)

Grow(HH, id) == Len(HH[id].e) < 4
Vs(HH, id) == Scalars \cup {v \in Refs(HH) : Profile \in {"P03", "P04"} /\ ~Reaches(HH, v, id)}

AOps(HH) ==
  UNION {
    LET n == Len(HH[a].e) vs == Vs(HH, a) IN
      (IF Grow(HH, a) THEN
           {[op |-> "Add", a |-> a, v |-> v] : v \in vs}
      \cup {[op |-> "AddAll", a |-> a, src |-> s] : s \in {s \in Arrs(HH) : Len(HH[s].e) < 3 /\ ~\E i \in 1..Len(HH[s].e) : Reaches(HH, HH[s].e[i], a)}}
      \cup {[op |-> "Insert", a |-> a, n |-> i, m |-> 0, v |-> v] : i \in 0..n, v \in vs}
      \cup {[op |-> "With", a |-> a, v |-> v] : v \in vs}
      \cup {[op |-> "WithAll", a |-> a, src |-> s] : s \in {s \in Arrs(HH) : Len(HH[s].e) < 3}}
      \cup {[op |-> "WithValues", a |-> a, vs |-> <<v, I(1)>>] : v \in vs}
       ELSE {})
      \cup {[op |-> "Set", a |-> a, n |-> i, m |-> 0, v |-> v] : i \in 0..(n - 1), v \in vs}
      \cup {[op |-> "Remove", a |-> a, n |-> i, m |-> 0] : i \in 0..n}
      \cup {[op |-> "GoSliceSet", a |-> a, n |-> i, m |-> 0, v |-> v] : i \in 0..(n - 1), v \in {I(1)}}
      \cup {[op |-> "RemoveValue", a |-> a, v |-> v] : v \in {I(0)}}
      \cup {[op |-> "Pop", a |-> a]}
      \cup {[op |-> "Slice", a |-> a, n |-> i, m |-> n] : i \in 0..n}
      \cup {[op |-> "ACopy", a |-> a, fz |-> b] : b \in BOOLEAN}
      \cup {[op |-> x, a |-> a] : x \in {"Flatten", "Unique", "ToMap", "Freeze", "FromPairs"}}
      \cup {[op |-> "Select", a |-> a, p |-> <<"isI">>], [op |-> "AMap", a |-> a, p |-> <<"wrap">>], [op |-> "AMap", a |-> a, p |-> <<"id">>]}
      \cup (IF \A i \in 1..n : HH[a].e[i][1] = "i" THEN {[op |-> "Sort", a |-> a]} ELSE {})
      \cup (IF Profile = "P02" THEN
             {[op |-> "IndexOf", a |-> a, v |-> v] : v \in Scalars}
        \cup {[op |-> x, a |-> a] : x \in {"ALen", "AEach", "GoSlice", "AppendToSlice", "EachWithIndex", "InterfaceSlice"}}
        \cup {[op |-> "AGet", a |-> a, n |-> i, m |-> 0] : i \in -1..n}
        \cup {[op |-> "Reduce", a |-> a, v |-> Nil]}
        \cup {[op |-> x, a |-> a, src |-> s] : x \in {"ContainsAll", "SameValues"}, s \in Arrs(HH)}
        \cup {[op |-> x, a |-> a, p |-> <<"eq", I(1)>>] : x \in {"AAll", "AAny", "AOne", "AFind", "Select", "Reject"}}
             ELSE {})
    : a \in Arrs(HH) }

MOps(HH) ==
  UNION {
    LET n == Len(HH[m].e) vs == Vs(HH, m) IN
      (IF n < 3 THEN
           {[op |-> "Put", a |-> m, k |-> k, v |-> v] : k \in Keys2, v \in vs}
      \cup {[op |-> "MWith", a |-> m, k |-> k, v |-> v] : k \in Keys2, v \in vs}
       ELSE {})
      \cup {[op |-> "PutAll", a |-> m, src |-> s] : s \in {s \in Maps(HH) \ {m} : ~\E i \in 1..Len(HH[s].e) : Reaches(HH, HH[s].e[i][2], m)}}
      \cup {[op |-> "Merge", a |-> m, src |-> s] : s \in Maps(HH)}
      \cup {[op |-> x, a |-> m, k |-> k] : x \in {"MRemove", "Without"}, k \in Keys2}
      \cup {[op |-> x, a |-> m, src |-> s] : x \in {"RemoveAll", "WithoutAll"}, s \in Arrs(HH)}
      \cup {[op |-> "MCopy", a |-> m, fz |-> b] : b \in BOOLEAN}
      \cup {[op |-> "EntriesToMap", a |-> m, fz |-> b] : b \in BOOLEAN}
      \cup {[op |-> x, a |-> m] : x \in {"Keys", "Values", "Freeze"}}
      \cup {[op |-> "MMap", a |-> m, p |-> <<"wrap">>], [op |-> "MMap", a |-> m, p |-> <<"id">>]}
      \cup (IF Profile = "P01" THEN
             {[op |-> x, a |-> m, k |-> k] : x \in {"MGet", "ContainsKey"}, k \in Keys2}
        \cup {[op |-> x, a |-> m] : x \in {"MLen", "EachEntry", "EachKey", "EachValue", "StringKeys"}}
        \cup {[op |-> x, a |-> m, on |-> "v", p |-> <<"eq", I(1)>>] : x \in {"MAll", "MAny", "MFind", "MAllValues", "MAnyValue"}}
        \cup {[op |-> x, a |-> m, on |-> "k", p |-> <<"eq", KA>>] : x \in {"MAll", "MAny", "MFind", "MAllKeys", "MAnyKey"}}
             ELSE {})
      \cup (IF Profile \in {"P03", "P04"} THEN
             {[op |-> x, a |-> m, k |-> KA] : x \in {"EntryFrozenCopy", "EntryThawedCopy", "EntryFreeze"}}
             ELSE {})
    : m \in Maps(HH) }

NewOps(HH) == {[op |-> "NewMapFrom", fz |-> b, a |-> a] : b \in BOOLEAN, a \in Arrs(HH)}
              \cup {[op |-> "ArrFrom", a |-> a] : a \in Arrs(HH)}

Ops(HH) == (IF Profile # "P01" THEN AOps(HH) ELSE {}) \cup (IF Profile # "P02" THEN MOps(HH) \cup NewOps(HH) ELSE {})

Init == \E s \in Seeds : H = Play(<<>>, s) /\ hist = s /\ last = [op |-> "init"]

Next ==
  /\ Len(hist) < Depth + 2
  /\ \E o \in Ops(H) :
       LET st == Step(H, o) IN
       /\ Len(st.h) <= MaxObjs
       /\ H' = st.h
       /\ hist' = Append(hist, o)
       /\ last' = [op |-> o.op, r |-> st.r, o |-> o]
       /\ Assert(FrozenForever(H, st.h), <<"FrozenForever", hist, o>>)
       /\ Assert(OnlyMutatorsMutate(H, o, st.h), <<"OnlyMutatorsMutate", hist, o>>)
       /\ Assert(MutatesReceiverOnly(H, o, st.h), <<"MutatesReceiverOnly", hist, o>>)
       /\ Assert(FreshResult(H, o, st.h, st.r), <<"FreshResult", hist, o>>)

Invariants == KeysUnique(H) /\ KeysFrozen(H) /\ FrozenIsDeep(H)

\* Evaluated for each transition
Emit == PrintT(ToJson([path |-> hist', r |-> NormR(H', last'.r), h |-> NormHeap(H')]))

Spec == Init /\ [][Next]_vars
=============================================================================
