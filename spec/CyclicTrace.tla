----------------------------- MODULE CyclicTrace ----------------------------
\* What the code does with graphs of collections and with recursive types, each line stands on its own (P20)
EXTENDS Cyclic, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
W(p, what) == IF p THEN {} ELSE {what}

\* The index, from 0, of the first element that equals the collection j, or -1
IndexOf(es, j, B) ==
  LET S == {i \in 1..Len(es) : SameRef(es[i], <<"c", j>>, B)} IN IF S = {} THEN -1 ELSE (CHOOSE i \in S : \A k \in S : i <= k) - 1
\* each element of y has one of its own in x
ContainsAll(x, y, B) ==
  \A i \in 1..Len(y) : Cardinality({k \in 1..Len(y) : SameRef(y[i], y[k], B)}) <= Cardinality({k \in 1..Len(x) : SameRef(y[i], x[k], B)})
\* a sensitive is as frozen as what it wraps
RECURSIVE IsFrozen(_, _)
IsFrozen(G, x) == IF ~IsC(x) THEN TRUE ELSE IF G[x[2]][1] = "s" THEN IsFrozen(G, G[x[2]][3][1]) ELSE G[x[2]][2]
Relist(G) == [i \in Nodes(G) |-> <<G[i][1], IsFrozen(G, <<"c", i>>), G[i][3]>>]

\* All pairs of collections are compared. eq: equality, eqv: what is the same seen from the other side, cmp: <<comparable, order>>
Reads(ev) ==
  LET G == ev.g
      B == Bisim(G)
      N == Nodes(G)
  IN
  UNION {UNION {LET same == <<i, j>> \in B IN
      W(ev.eq[i][j] = same, <<"equals", i, j>>)
      \cup W(ev.typed[i] /\ ev.typed[j] => ev.tin[i][j] = same, <<"instance of type", i, j>>)
      \cup W(ev.typed[i] /\ ev.typed[j] => ev.teq[i][j] = same, <<"equal types", i, j>>)
      \cup W(ev.typed[i] /\ ev.typed[j] => ev.tas[i][j] = same, <<"assignable types", i, j>>)
      \cup W(G[i][1] = "a" => ev.at[i][j] = IndexOf(G[i][3], j, B), <<"index", i, j>>)
      \cup W(G[i][1] = "a" /\ G[j][1] = "a" => ev.all[i][j] = ContainsAll(G[i][3], G[j][3], B), <<"contains", i, j>>)
      \cup W(ev.cmp[i][j][1] = ev.cmp[j][i][1] /\ ev.cmp[i][j][2] = -ev.cmp[j][i][2], <<"order isn't antisymmetric", i, j>>)
      \cup W(ev.cmp[i][j][1] => (ev.cmp[i][j][2] = 0) = same, <<"order isn't equality", i, j>>)
      \cup W(i = j => ev.cmp[i][j][1] = (G[i][1] = "a") /\ ev.cmp[i][j][2] = 0, <<"compare with itself", i>>)
      : j \in N} : i \in N}
  \cup W(Same(G, ev.h) /\ G = ev.h, <<"reading changed what is read">>)

FreezeEv(ev) == W(ev.h = Relist(Freeze(ev.g, ev.n)), <<"frozen">>)

\* A copy m of n; what is told of a copy is what is told of the original
CopyEv(ev) ==
  W(IsCopy(ev.g, ev.h, ev.n, ev.m, ev.frozen), <<"not a copy">>)
  \cup W(ev.same = <<>>, <<"told differently of a copy", ev.same>>)

\* A copy with one thing added, or two collections put together
WithEv(ev) ==
  LET G == ev.g H == ev.h
      x == G[ev.n][3]
      want == CASE ev.what = "with" -> Append(x, ev.arg[1])
                [] ev.what = "withAll" -> x \o G[ev.arg[1][2]][3]
                [] ev.what = "merge" -> LET y == G[ev.arg[1][2]][3]
                                            Own(k) == \E i \in 1..Len(y) : y[i][1] = k
                                            At(k) == y[CHOOSE i \in 1..Len(y) : y[i][1] = k]
                                        IN [i \in 1..Len(x) |-> IF Own(x[i][1]) THEN At(x[i][1]) ELSE x[i]]
                                           \o SelectSeq(y, LAMBDA e : \A i \in 1..Len(x) : x[i][1] # e[1])
      \* the collection that is expected is added to the graph, to be compared
      K == Append(H, <<G[ev.n][1], FALSE, want>>)
  IN W(Same(G, H), <<"changed">>) \cup W(<<ev.m, Len(K)>> \in Bisim(K), <<"content of", ev.what>>)

\* in[i][t]: the collection i is an instance of the type t, which is among the types of the graph T
TypesEv(ev) ==
  LET IN1 == Instances(ev.g, ev.t) IN
  UNION {UNION {W(ev.in[k][i] = (<<i, ev.roots[k]>> \in IN1), <<"instance", i, k>>) : i \in Nodes(ev.g)} : k \in DOMAIN ev.roots}
  \cup UNION {UNION {
       W(ev.asg[k][m] => \A i \in Nodes(ev.g) : <<i, ev.roots[m]>> \in IN1 => <<i, ev.roots[k]>> \in IN1, <<"assignable", k, m>>)
       \cup W(ev.eq[k][m] => \A i \in Nodes(ev.g) : <<i, ev.roots[m]>> \in IN1 <=> <<i, ev.roots[k]>> \in IN1, <<"equal", k, m>>)
       \cup W(ev.eq[k][m] = ev.eq[m][k], <<"equality isn't symmetric", k, m>>)
       \cup W(ev.text[k] = ev.text[m] => ev.eq[k][m] /\ ev.asg[k][m] /\ ev.hash[k] = ev.hash[m], <<"the same type", k, m>>)
       : m \in DOMAIN ev.roots} : k \in DOMAIN ev.roots}
  \cup W(ev.g = ev.h, <<"a check changed what is checked">>)

Judge(ev) ==
  CASE ev.op = "reads" -> Reads(ev)
    [] ev.op = "freeze" -> FreezeEv(ev)
    [] ev.op = "copy" -> CopyEv(ev)
    [] ev.op = "with" -> WithEv(ev)
    [] ev.op = "types" -> TypesEv(ev)
    [] ev.op = "deep" -> W(ev.ends, <<"doesn't end", ev.what>>)
    [] OTHER -> {"unexpected panic"}

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET bad == Judge(Trace[l]) IN bad # {} => PrintT(<<"REJECT", l, bad>>)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
