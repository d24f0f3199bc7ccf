------------------------------ MODULE LoaderMC ------------------------------
(***************************************************************************)
(* Every interleaving, up to a bound, of processes that load from one of   *)
(* the hierarchies. TLC checks the properties of the loader machine and    *)
(* emits each transition, with the path to it, for the driver to perform.  *)
(***************************************************************************)
EXTENDS Loader, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
NP == atoi(IOEnv.NP)
Rich == IOEnv.RICH = "1"
H == atoi(IOEnv.PART) + 1

VARIABLES S, hist, out, seen
view == <<S, seen>>


Range2(s) == {s[i] : i \in 1..Len(s)}
Refs == Range2(Hierarchy(H)[2])
Keys == IF Rich THEN {"a", "b", "e", "n", "x", "m", "m2", "mb", "mc", "mn", "w", "p", "q", "qn", "qx"}
        ELSE {"a", "x", "n", "m", "mc", "q"}
Names == IF Rich THEN {"s", "n", "m", "v", "j", "k", "p", "q", "qv", ""} ELSE {"s", "v", "j"}
Paths == IF Rich THEN {<<"s", "a">>, <<"", "a">>, <<"s", "s", "a">>, <<"m", "a">>, <<"v", "a">>, <<"j", "b">>, <<"s", "m", "x">>, <<"k", "s", "a">>, <<"n", "a">>}
         ELSE {<<"s", "a">>, <<"s", "s">>, <<"v", "a">>}
Ops == {[op |-> "get", l |-> r, k |-> k] : r \in Refs, k \in Keys}
       \cup {[op |-> "ns", l |-> r, k |-> k] : r \in Refs, k \in Names}
       \cup {[op |-> "load", l |-> r, k |-> k] : r \in Refs, k \in Paths}

\* seen remembers what the calls on base loaders have yielded
Init == S = Start(H, NP) /\ hist = <<>> /\ out = <<>> /\ seen = <<>>

\* Observations of completed calls: a name means the same thing to all callers. A value that is found is the same object.
\* A call that refuses (panics) observes nothing.
Agree(o, v) == \A i \in 1..Len(seen) : seen[i][1] = o => seen[i][2] = v

Step(p, x, o, e) ==
  /\ S' = x[2]
  /\ out' = x[1]
  /\ hist' = Append(hist, e)
  /\ seen' = IF x[1][1] = "done" /\ x[1][2][1] # "panic" /\ ~\E i \in 1..Len(seen) : seen[i][1] = o
             THEN Append(seen, <<o, x[1][2]>>) ELSE seen
  /\ Assert(Stable(S.L, x[2].L), <<"Stable", hist>>)
  /\ Assert(x[1][1] = "done" /\ x[1][2][1] # "panic" => Agree(o, x[1][2]), <<"Agree", hist, e, x>>)
  \* what is asked of a finder or a creator is not there already
  /\ Assert(x[1][1] = "gate" => LET g == x[1][2] IN ~Has(IF g[1] = "find" THEN x[2].L[g[2]].e ELSE x[2].L[g[2]].ns, g[3]),
            <<"AskedInVain", hist>>)

\* processes start in order, for symmetry
Opof(p) == LET ix == {i \in 1..Len(hist) : hist[i].p = p /\ hist[i].op = "call"}
           IN hist[CHOOSE i \in ix : \A j \in ix : j <= i].o
Next ==
  /\ Len(hist) < Depth
  /\ \E p \in 1..NP :
       IF S.K[p] = <<>> THEN
         /\ p = 1 \/ \E i \in 1..Len(hist) : hist[i].p = p - 1
         /\ \E o \in Ops : LET x == Call(S, p, o) IN Step(p, x, o, [op |-> "call", p |-> p, o |-> o])
       ELSE LET x == Resume(S, p) IN Step(p, x, Opof(p), [op |-> "resume", p |-> p])

Invariant == Unique(S.L)
Emit == PrintT(ToJson([h |-> H, np |-> NP, path |-> hist', out |-> out', p |-> Project(S')]))
Spec == Init /\ [][Next]_<<S, hist, out, seen>>
=============================================================================
