------------------------------- MODULE Cyclic -------------------------------
(***************************************************************************)
(* Collections and types that may contain themselves (P20).                *)
(*                                                                         *)
(* A graph G is a sequence of collections <<kind, frozen, elements>>, where*)
(* kind is "a" (array), "m" (map) or "s" (sensitive). The elements of a map*)
(* are <<key, value>> where the key is a string, in the order in which they*)
(* were added. Other elements are what <<"c", n>> (the collection n) or    *)
(* <<"v", text>> (something without elements) refer to.                    *)
(*                                                                         *)
(* A graph of types T is a sequence of <<"any">>, <<"v", text>> (exact),   *)
(* <<"int">>, <<"str">>, <<"arr", type, min, max>>, <<"tup", types>>,      *)
(* <<"map", type, min, max>> (keys are strings), <<"struct", entries, more>>*)
(* with entries <<key, required, type>>, <<"or", types>>, <<"and", types>> *)
(* and <<"sens", type>> where a type is an index in T.                     *)
(*                                                                         *)
(* What holds for a graph is defined by refinement: assume that it holds of*)
(* all pairs and drop those for which that assumption doesn't suffice.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

IsC(x) == x[1] = "c"
Nodes(G) == 1..Len(G)
\* What a collection refers to
Refs(G, n) == IF G[n][1] = "m" THEN {G[n][3][i][2] : i \in 1..Len(G[n][3])} ELSE {G[n][3][i] : i \in 1..Len(G[n][3])}
Kids(G, n) == {x[2] : x \in {y \in Refs(G, n) : IsC(y)}}
RECURSIVE Closure(_, _, _)
Closure(G, todo, done) ==
  IF todo = {} THEN done ELSE LET now == done \cup todo IN Closure(G, UNION {Kids(G, n) : n \in todo} \ now, now)
Reach(G, n) == Closure(G, {n}, {})

-----------------------------------------------------------------------------
\* Equality

SameRef(x, y, R) == IF IsC(x) THEN IsC(y) /\ <<x[2], y[2]>> \in R ELSE x = y
SameNode(G, a, b, R) ==
  LET x == G[a][3] y == G[b][3] IN
  /\ G[a][1] = G[b][1]
  /\ Len(x) = Len(y)
  /\ IF G[a][1] = "m" THEN \A i \in 1..Len(x) : \E j \in 1..Len(y) : x[i][1] = y[j][1] /\ SameRef(x[i][2], y[j][2], R)
     ELSE \A i \in 1..Len(x) : SameRef(x[i], y[i], R)
RECURSIVE Refine(_, _)
Refine(G, R) == LET S == {p \in R : SameNode(G, p[1], p[2], R)} IN IF S = R THEN R ELSE Refine(G, S)
\* The pairs of collections that are equal: no path of keys and indices leads to different things in them
Bisim(G) == Refine(G, Nodes(G) \X Nodes(G))

-----------------------------------------------------------------------------
\* Instances

RECURSIVE Holds(_, _, _, _, _)
\* x is an instance of the type t, provided that the collections in the pairs of R are instances of the types in those
Holds(G, T, R, x, t) == IF IsC(x) THEN <<x[2], t>> \in R
                        ELSE CASE T[t][1] = "any" -> TRUE
                               [] T[t][1] = "v" -> T[t][2] = x[2]
                               [] T[t][1] = "int" -> x[2] \in {"i1", "i2"}
                               [] T[t][1] = "str" -> x[2] \in {"sa", "sb"}
                               [] T[t][1] = "or" -> \E i \in 1..Len(T[t][2]) : Holds(G, T, R, x, T[t][2][i])
                               [] T[t][1] = "and" -> \A i \in 1..Len(T[t][2]) : Holds(G, T, R, x, T[t][2][i])
                               [] OTHER -> FALSE
InNode(G, T, n, t, R) ==
  LET k == G[n][1]
      e == G[n][3]
      ty == T[t]
  IN
  CASE ty[1] = "any" -> TRUE
    [] ty[1] = "arr" -> k = "a" /\ Len(e) >= ty[3] /\ Len(e) <= ty[4] /\ \A i \in 1..Len(e) : Holds(G, T, R, e[i], ty[2])
    [] ty[1] = "tup" -> k = "a" /\ Len(e) = Len(ty[2]) /\ \A i \in 1..Len(e) : Holds(G, T, R, e[i], ty[2][i])
    [] ty[1] = "map" -> k = "m" /\ Len(e) >= ty[3] /\ Len(e) <= ty[4] /\ \A i \in 1..Len(e) : Holds(G, T, R, e[i][2], ty[2])
    [] ty[1] = "struct" ->
        /\ k = "m"
        /\ \A j \in 1..Len(ty[2]) :
             LET is == {i \in 1..Len(e) : e[i][1] = ty[2][j][1]} IN
             IF is = {} THEN ~ty[2][j][2] ELSE \A i \in is : Holds(G, T, R, e[i][2], ty[2][j][3])
        /\ ty[3] \/ \A i \in 1..Len(e) : \E j \in 1..Len(ty[2]) : e[i][1] = ty[2][j][1]
    [] ty[1] = "sens" -> k = "s" /\ Holds(G, T, R, e[1], ty[2])
    [] ty[1] = "or" -> \E i \in 1..Len(ty[2]) : <<n, ty[2][i]>> \in R
    [] ty[1] = "and" -> \A i \in 1..Len(ty[2]) : <<n, ty[2][i]>> \in R
    [] OTHER -> FALSE
RECURSIVE RefineIn(_, _, _)
RefineIn(G, T, R) == LET S == {p \in R : InNode(G, T, p[1], p[2], R)} IN IF S = R THEN R ELSE RefineIn(G, T, S)
\* The pairs of a collection and a type that it is an instance of
Instances(G, T) == RefineIn(G, T, Nodes(G) \X (1..Len(T)))

-----------------------------------------------------------------------------
\* What operations do to the graph

Frozen(G, n) == G[n][2]
\* freezing reaches all that the collection refers to
Freeze(G, n) == LET R == Reach(G, n) IN [i \in Nodes(G) |-> IF i \in R /\ G[i][1] # "s" THEN <<G[i][1], TRUE, G[i][3]>> ELSE G[i]]
\* a sensitive is as frozen as what it wraps, which is listed anew
Same(G, H) == Len(H) >= Len(G) /\ \A i \in Nodes(G) : G[i][1] = H[i][1] /\ G[i][3] = H[i][3] /\ (G[i][1] # "s" => G[i][2] = H[i][2])

\* m is a copy of n, where G is the graph before and H the graph after it was made
IsCopy(G, H, n, m, frozen) ==
  LET new == Reach(H, m) IN
  /\ Same(G, H)                          \* the original is what it was
  /\ <<n, m>> \in Bisim(H)               \* nothing in the copy differs
  /\ \A i \in new : H[i][1] # "s" => Frozen(H, i) = frozen
  /\ \A i \in new : i \in Nodes(G) => frozen /\ (G[i][1] # "s" => Frozen(G, i))   \* only what is frozen can be shared
=============================================================================
