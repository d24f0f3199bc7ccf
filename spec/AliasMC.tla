------------------------------ MODULE AliasMC ------------------------------
(***************************************************************************)
(* Every interleaving, up to a bound, of processes that add aliases with   *)
(* scripts that define, redefine, reference and look up two names. TLC     *)
(* checks the properties of the alias machine and emits each transition    *)
(* with the path to it for the driver to perform.                          *)
(***************************************************************************)
EXTENDS Alias, Json, IOUtils, SequencesExt

Depth == atoi(IOEnv.DEPTH)
NP == atoi(IOEnv.NP)
Rich == IOEnv.RICH = "1"
Tiny == IOEnv.RICH = "tiny"
Part == atoi(IOEnv.PART)   \* the first call is that of the part, modulo the number of parts
Parts == atoi(IOEnv.PARTS)

VARIABLES S, hist, out

Tms(me, other) ==
  IF Tiny THEN {<<"intr", 0, 4, TRUE>>, <<"arrz", <<"al", other>>, 0, Unbounded>>} ELSE
  {<<"intr", 0, 4, TRUE>>, <<"al", other>>, <<"arrz", <<"al", me>>, 0, Unbounded>>, <<"arrz", <<"al", other>>, 0, Unbounded>>}
  \cup (IF Rich THEN {<<"struct", <<<<<<"s", <<107>>>>, <<"al", me>>, FALSE>>>>, FALSE>>,
                      <<"anyof", <<<<"intr", 0, 4, TRUE>>, <<"arrz", <<"al", other>>, 0, Unbounded>>>>>>} ELSE {})
Ver == 10 * Len(hist)
Add(k, n, t) == [op |-> "add", name |-> n, v |-> Ver + k, t |-> t]
Parse(k, n, t) == [op |-> "parse", name |-> n, v |-> Ver + k, t |-> t]
Get(n) == [op |-> "get", name |-> n]
Gate == [op |-> "gate"]
\* the scripts that exist after hist. They're the same each time but for the versions
Scripts ==
  LET A == {Add(1, "ta", t) : t \in Tms("ta", "tb")}
      B == {Add(2, "tb", t) : t \in Tms("tb", "ta")}
      P == {Parse(3, "ta", t) : t \in Tms("ta", "tb")}
      Q == {Parse(4, "tb", t) : t \in Tms("tb", "ta")}
  IN IF Tiny THEN {<<a>> : a \in A} \cup {<<b>> : b \in B} \cup {<<Gate, a>> : a \in A} \cup {<<Gate, p>> : p \in P}
                   \cup {<<a, Gate, Get("ta"), b>> : a \in A, b \in B}
     ELSE {<<a>> : a \in A} \cup {<<p>> : p \in P}
     \cup {<<a, b>> : a \in A, b \in B \cup Q}
     \cup {<<p, b>> : p \in P, b \in B \cup Q}
     \cup {<<a, Gate>> : a \in A} \cup {<<Gate, b>> : b \in B}
     \cup {<<a, Gate, b, Get("ta")>> : a \in A, b \in B \cup Q}
     \cup {<<Get("ta"), Gate, Get("ta"), p>> : p \in P}
     \cup (IF Rich THEN {<<b, a, Add(5, "ta", t)>> : b \in B, a \in A, t \in Tms("ta", "tb")} ELSE {})
Calls == {[on |-> "var", i |-> 1, script |-> s] : s \in Scripts}
         \cup (IF Rich THEN {[on |-> "map", i |-> m, script |-> s] : m \in 1..Len(S.M), s \in {x \in Scripts : Len(x) <= 2}} ELSE {})

\* the calls that a part starts with
First == LET s == SetToSeq(Calls) IN {s[i] : i \in {i \in 1..Len(s) : i % Parts = Part}}
Init == S = Start(NP, 1) /\ hist = <<>> /\ out = <<>>

\* the names of a map can be told from its types
Names(T) == \A m \in 1..Len(T.M) : \A i \in 1..Len(T.M[m]) : T.M[m][i][2] # 0
Step(x, e) ==
  /\ S' = x[2]
  /\ out' = x[1]
  /\ hist' = Append(hist, e)
  /\ Assert(Retained(S, x[2]), <<"Retained", hist, e>>)
  /\ Assert(Resolved(x[2]) /\ Names(x[2]), <<"Resolved", hist, e>>)
  /\ Assert(\A m \in 1..Len(x[2].M) : \A i \in 1..Len(x[2].M[m]) : NameOk(x[2], m, x[2].M[m][i][2], x[2].M[m][i][1]), <<"NameOk", hist, e>>)

Next ==
  /\ Len(hist) < Depth
  /\ \E p \in 1..NP :
       IF S.K[p] = <<>> THEN
         /\ p = 1 \/ \E i \in 1..Len(hist) : hist[i].p = p - 1
         /\ \E o \in IF Len(hist) = 0 THEN First ELSE Calls :
              /\ LET x == Call(S, p, o) IN Step(x, [op |-> "call", p |-> p, o |-> o])
       ELSE LET x == Resume(S, p) IN Step(x, [op |-> "resume", p |-> p])

\* a map by name, since the order doesn't matter
Sorted(es) == SelectSeq(es, LAMBDA e : e[1] = "ta") \o SelectSeq(es, LAMBDA e : e[1] = "tb")
Emit == PrintT(ToJson([np |-> NP, nv |-> 1, path |-> hist', out |-> out', v |-> S'.V, m |-> [i \in 1..Len(S'.M) |-> Sorted(S'.M[i])]]))
Spec == Init /\ [][Next]_<<S, hist, out>>
=============================================================================
