------------------------------ MODULE CyclicMC ------------------------------
(***************************************************************************)
(* All graphs of SIZE arrays and maps with at most two elements: walks that*)
(* remember only the collections that they are within decide equality, and *)
(* make copies, as Cyclic.tla says, and they terminate.                    *)
(***************************************************************************)
EXTENDS Cyclic, TLC, IOUtils

SIZE == atoi(IOEnv.SIZE)
VARIABLES g

Ref == {<<"c", n>> : n \in 1..SIZE} \cup {<<"v", "i1">>}
Lists == {<<>>} \cup {<<x>> : x \in Ref} \cup {<<x, y>> : x \in Ref, y \in Ref}
Maps == {[i \in 1..Len(s) |-> <<<<"a", "b">>[i], s[i]>>] : s \in Lists}
Colls == {<<"a", FALSE, s>> : s \in Lists} \cup {<<"m", FALSE, s>> : s \in Maps}

\* compare x and y, within the comparisons of the pairs in seen
RECURSIVE Walk(_, _, _, _)
Walk(G, x, y, seen) ==
  IF ~IsC(x) THEN x = y
  ELSE IF ~IsC(y) THEN FALSE
  ELSE IF x = y \/ <<x[2], y[2]>> \in seen THEN TRUE
  ELSE LET a == G[x[2]] b == G[y[2]] s == seen \cup {<<x[2], y[2]>>} IN
       /\ a[1] = b[1] /\ Len(a[3]) = Len(b[3])
       /\ IF a[1] = "m" THEN \A i \in 1..Len(a[3]) : \E j \in 1..Len(b[3]) : a[3][i][1] = b[3][j][1] /\ Walk(G, a[3][i][2], b[3][j][2], s)
          ELSE \A i \in 1..Len(a[3]) : Walk(G, a[3][i], b[3][i], s)

\* copy x into H, within the copying of path, which has the originals and their copies. Yields <<graph, reference>>.
Value(e, map) == IF map THEN e[2] ELSE e
RECURSIVE Copy(_, _, _, _)
RECURSIVE CopyAll(_, _, _, _, _)
Copy(H, x, path, frozen) ==
  IF ~IsC(x) THEN <<H, x>>
  ELSE IF \E p \in path : p[1] = x[2] THEN <<H, <<"c", (CHOOSE p \in path : p[1] = x[2])[2]>>>>
  ELSE IF frozen /\ H[x[2]][2] THEN <<H, x>>
  ELSE LET n == Len(H) + 1
           r == CopyAll(Append(H, <<H[x[2]][1], frozen, <<>>>>), H[x[2]][3], <<>>, path \cup {<<x[2], n>>}, <<H[x[2]][1] = "m", frozen>>)
       IN <<[r[1] EXCEPT ![n] = <<@[1], @[2], r[2]>>], <<"c", n>>>>
CopyAll(H, s, acc, path, how) ==
  IF s = <<>> THEN <<H, acc>>
  ELSE LET r == Copy(H, Value(Head(s), how[1]), path, how[2])
       IN CopyAll(r[1], Tail(s), Append(acc, IF how[1] THEN <<Head(s)[1], r[2]>> ELSE r[2]), path, how)

Init == g \in [1..SIZE -> Colls]
\* one of the collections is frozen
Next == /\ \A n \in 1..SIZE : ~Frozen(g, n)
        /\ \E n \in 1..SIZE : g' = Freeze(g, n)
Spec == Init /\ [][Next]_g

Decided == LET R == Bisim(g) IN \A i, j \in 1..SIZE : Walk(g, <<"c", i>>, <<"c", j>>, {}) = (<<i, j>> \in R)
Copied == \A n \in 1..SIZE : \A f \in BOOLEAN : LET r == Copy(g, <<"c", n>>, {}, f) IN IsCopy(g, r[1], n, r[2][2], f)
\* what is frozen refers only to what is frozen
Deep == \A n \in 1..SIZE : Frozen(g, n) => \A k \in Kids(g, n) : Frozen(g, k)
\* equality is an equivalence that is respected by what is frozen
Equivalence == LET R == Bisim(g) IN
  /\ \A i \in 1..SIZE : <<i, i>> \in R
  /\ \A p \in R : <<p[2], p[1]>> \in R
  /\ \A p \in R : \A q \in R : p[2] = q[1] => <<p[1], q[2]>> \in R
=============================================================================
