------------------------------ MODULE BinaryMC ------------------------------
(***************************************************************************)
(* Every sequence of operations up to a bound, on slices of two bytes.     *)
(* TLC checks that frozen binaries are shielded and immutable, and emits   *)
(* each transition with a path to it, for the driver to perform.           *)
(***************************************************************************)
EXTENDS Binary, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
VARIABLES S, hist, r
vars == <<S, hist, r>>
view == S

Ss == 1..Len(S.s)
Bs == 1..Len(S.b)
More == Len(S.s) + Len(S.b) < 5
Ops ==
  (IF More THEN
       {[op |-> "new", a |-> a, fz |-> f] : a \in Ss, f \in BOOLEAN}
  \cup {[op |-> "value", a |-> a] : a \in Ss}
  \cup {[op |-> "bytes", b |-> b] : b \in Bs}
  \cup {[op |-> o, b |-> b, fz |-> f] : o \in {"copy", "held"}, b \in Bs, f \in BOOLEAN}
  \cup {[op |-> "key", b |-> b] : b \in Bs}
  \cup {[op |-> "decode", x |-> <<65, 65, 69, c>>, enc |-> e] : c \in {61, 65}, e \in {"%b", "%B", "%r"}}
   ELSE {})
  \cup {[op |-> "write", a |-> a, i |-> 1, v |-> v] : a \in Ss, v \in {0, 1}}
  \cup {[op |-> "freeze", b |-> b] : b \in Bs}
  \cup {[op |-> o, b |-> b, c |-> c] : o \in {"equals", "hash", "compare", "type"}, b \in Bs, c \in Bs}
  \cup {[op |-> o, b |-> b, a |-> a] : o \in {"equalsGo", "compareGo"}, b \in Bs, a \in Ss}
  \cup {[op |-> o, b |-> b] : o \in {"encode", "string"}, b \in Bs}

First == [op |-> "slice", x |-> <<0, 1>>]
Init == S = Step(Start, First).s /\ hist = <<First>> /\ r = <<>>
Next ==
  /\ Len(hist) <= Depth
  /\ \E o \in Ops :
       LET x == Step(S, o) IN
       /\ S' = x.s /\ r' = x.r
       /\ hist' = Append(hist, o)
       /\ Assert(Immutable(Project(S), Project(x.s)), <<"Immutable", hist, o>>)
       /\ Assert(Reading(Project(S), o, Project(x.s)), <<"Reading", hist, o>>)
Invariant == Shielded(S) /\ Alone(S)
Emit == PrintT(ToJson([path |-> hist', r |-> r', h |-> Project(S')]))
Spec == Init /\ [][Next]_vars
=============================================================================
