------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* The loader machine of dgo: a hierarchy of loaders, and processes that   *)
(* load from it. The abstract state S is a record with                     *)
(*   L   the base loaders, by number. A base loader is immutable ("map")   *)
(*       or loads on demand ("mut"). It has entries, child namespaces, a   *)
(*       name, a parent namespace, and the names of the finder and the     *)
(*       creator of namespaces that it consults.                           *)
(*   n   how many values finders have produced. Each value that a finder   *)
(*       returns is a new object, so a value is <<"v", content, serial>>   *)
(*   K   for each process a stack of frames. It's empty when no call is in *)
(*       progress.                                                         *)
(* A reference to a loader is <<"l", number>> or, when it was derived with *)
(* a parent, <<"ch", own, parent>>.                                        *)
(*                                                                         *)
(* Micro(S, p) is one atomic step of the call that p makes. A process      *)
(* stops at a gate when a finder or a creator is called and goes on with   *)
(* Resume. Between them the other processes do what they like.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nil == <<"nil">>
Val(c, n) == <<"v", c, n>>
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Has(es, k) == \E i \in 1..Len(es) : es[i][1] = k
At(es, k) == LET i == CHOOSE i \in 1..Len(es) : es[i][1] = k IN es[i][2]
\* the same content
Same(v, w) == v[1] = w[1] /\ (v[1] = "v" => v[2] = w[2])

\* What a finder f returns for a key, as the n:th value that is produced
\*   <<"val", value>>, <<"multi", entries>>, <<"panic", code>>, <<"load", key>> (it first loads another key)
FinderResult(f, key, n) ==
  LET v(k) == Val(f \o k, n) IN
  CASE key = "n" -> <<"val", Nil>>
    [] key = "p" -> <<"panic", "boom">>
    [] key = "x" -> <<"val", Val(f \o key \o ToString(n), n)>>
    [] key = "m" -> <<"multi", <<<<"m", v("m")>>, <<"m2", v("m2")>>>>>>
    [] key = "m2" -> <<"multi", <<<<"m", v("m")>>, <<"m2", v("m2")>>>>>>
    [] key = "mb" -> <<"multi", <<<<"b", v("b")>>, <<"mb", v("mb")>>>>>>
    [] key = "mc" -> <<"multi", <<<<"y", v("y")>>, <<"mc", v("mc")>>, <<"a", v("other")>>>>>>
    [] key = "mn" -> <<"multi", <<<<"mn", Nil>>, <<"b", v("b")>>>>>>
    [] key = "w" -> <<"multi", <<<<"z", v("z")>>>>>>
    [] OTHER -> <<"val", v(key)>>
\* the key that a finder loads before it returns
FinderLoads(key) == CASE key = "q" -> "a" [] key = "qn" -> "n" [] key = "qx" -> "x" [] OTHER -> ""

\* What a creator c returns for a name: <<"nil">>, <<"panic", code>> or <<"new", loader>>
CreatorResult(id, f, c, name, n) ==
  LET new(k, es, ff, cc) == <<"new", [k |-> k, name |-> name, pns |-> id, e |-> es, ns |-> <<>>, f |-> ff, c |-> cc]>> IN
  CASE name = "n" -> Nil
    [] name = "p" -> <<"panic", "boom">>
    [] name = "m" -> new("map", <<<<"a", Val(c \o "a", 0)>>>>, "", "")
    [] name = "v" -> new("map", <<<<"a", Val(c \o "a" \o ToString(n), 0)>>>>, "", "")
    [] name = "j" -> new("mut", <<<<"a", Val(c \o "a", 0)>>>>, "G", "")
    [] name = "k" -> new("mut", <<>>, "", c)
    [] OTHER -> new("mut", <<>>, "G", c)
CreatorLoads(name) == CASE name = "q" -> "s" [] name = "qv" -> "v" [] OTHER -> ""

RECURSIVE BaseOf(_)
BaseOf(ref) == IF ref[1] = "l" THEN ref[2] ELSE BaseOf(ref[2])
RECURSIVE AbsName(_, _)
AbsName(L, id) ==
  LET own == "/" \o L[id].name IN
  IF L[id].pns = 0 THEN own ELSE LET a == AbsName(L, L[id].pns) IN IF a = "/" THEN own ELSE a \o own

\* All of m is in old
Within(m, old) == \A i \in 1..Len(m) : Has(old, m[i][1]) /\ Same(At(old, m[i][1]), m[i][2])
\* A loader that a creator made is accepted as a duplicate of one that it has made before
SameDef(old, new) ==
  /\ old.k = new.k
  /\ Within(new.e, old.e)
  /\ new.k = "map" => Within(old.e, new.e)

\* Adding what a finder found is all or nothing
Add(S, id, key, res) ==
  LET es == IF res[1] = "multi" THEN res[2] ELSE <<<<key, res[2]>>>>
      old == S.L[id].e
      fresh == SelectSeq(es, LAMBDA e : ~Has(old, e[1]))
  IN IF ~Has(es, key) THEN <<S, <<"panic", "missing">>>>
     ELSE IF \E i \in 1..Len(es) : Has(old, es[i][1]) /\ ~Same(At(old, es[i][1]), es[i][2]) THEN <<S, <<"panic", "override">>>>
     ELSE <<[S EXCEPT !.L[id].e = old \o fresh], At(old \o fresh, key)>>

Gates == {"find", "create"}
Blocked(S, p) == S.K[p] # <<>> /\ Top(S.K[p])[1] \in Gates
Finished(S, p) == Len(S.K[p]) = 1 /\ Top(S.K[p])[1] = "ret"

\* the first frame of a call. None when the call is a query that is answered at once
Load1(ref, parts) ==
  IF Len(parts) = 1 THEN <<<<"get", ref, parts[1]>>>>
  ELSE <<<<"load", Tail(parts)>>, <<"ns", ref, parts[1]>>>>

NewBase(S, rec) == [S EXCEPT !.L = Append(@, rec)]

Begin(S, p, o) ==
  LET st(fs) == [S EXCEPT !.K[p] = fs] IN
  CASE o.op = "get" -> st(<<<<"get", o.l, o.k>>>>)
    [] o.op = "ns" -> st(<<<<"ns", o.l, o.k>>>>)
    [] o.op = "load" -> st(Load1(o.l, o.k))
    [] o.op = "child" ->
         LET b == S.L[BaseOf(o.l)]
             rec == [k |-> IF o.f = "" /\ o.c = "" THEN "map" ELSE "mut", name |-> b.name, pns |-> b.pns, e |-> <<>>,
                     ns |-> <<>>, f |-> o.f, c |-> o.c]
         IN [NewBase(S, rec) EXCEPT !.K[p] = <<<<"ret", <<"ch", <<"l", Len(S.L) + 1>>, o.l>>>>>>]
    [] o.op = "abs" -> st(<<<<"ret", <<"s", AbsName(S.L, BaseOf(o.l))>>>>>>)
    [] o.op = "name" -> st(<<<<"ret", <<"s", S.L[BaseOf(o.l)].name>>>>>>)
    [] o.op = "pns" -> st(<<<<"ret", IF S.L[BaseOf(o.l)].pns = 0 THEN Nil ELSE <<"l", S.L[BaseOf(o.l)].pns>>>>>>)

\* One atomic step of p, which is neither blocked nor finished
Micro(S, p) ==
  LET K == S.K[p]
      t == Top(K)
      b == Pop(K)
      go(fs) == [S EXCEPT !.K[p] = b \o fs]
      panic(c) == [S EXCEPT !.K[p] = <<<<"ret", <<"panic", c>>>>>>]
  IN
  CASE t[1] = "get" /\ t[2][1] = "ch" -> go(<<<<"cget", t[2][2], t[3]>>, <<"get", t[2][3], t[3]>>>>)
    [] t[1] = "get" ->
         LET l == S.L[t[2][2]] IN
         IF Has(l.e, t[3]) THEN go(<<<<"ret", At(l.e, t[3])>>>>)
         ELSE IF l.f = "" THEN go(<<<<"ret", Nil>>>>)
         ELSE go(<<<<"find", t[2][2], t[3]>>>>)
    [] t[1] = "ns" /\ t[3] = "" -> go(<<<<"ret", t[2]>>>>)
    [] t[1] = "ns" /\ t[2][1] = "ch" -> go(<<<<"cns1", t[2][2], t[3]>>, <<"ns", t[2][3], t[3]>>>>)
    [] t[1] = "ns" ->
         LET l == S.L[t[2][2]] IN
         IF Has(l.ns, t[3]) THEN go(<<<<"ret", <<"l", At(l.ns, t[3])>>>>>>)
         ELSE IF l.c = "" THEN go(<<<<"ret", Nil>>>>)
         ELSE go(<<<<"create", t[2][2], t[3]>>>>)
    [] t[1] = "found" ->
         LET a == Add(S, t[2], t[3], t[4]) IN
         IF a[2][1] = "panic" THEN panic(a[2][2]) ELSE [a[1] EXCEPT !.K[p] = b \o <<<<"ret", a[2]>>>>]
    [] t[1] = "made" ->
         LET l == S.L[t[2]] IN
         IF t[4] = 0 THEN go(<<<<"ret", Nil>>>>)
         ELSE IF ~Has(l.ns, t[3]) THEN
           [S EXCEPT !.K[p] = b \o <<<<"ret", <<"l", t[4]>>>>>>, !.L[t[2]].ns = Append(@, <<t[3], t[4]>>)]
         ELSE LET o == At(l.ns, t[3]) IN
           IF SameDef(S.L[o], S.L[t[4]]) THEN go(<<<<"ret", <<"l", o>>>>>>) ELSE panic("defined")
    [] t[1] = "ret" ->
         LET v == t[2]
             u == Top(b)
             bb == Pop(b)
             on(fs) == [S EXCEPT !.K[p] = bb \o fs]
         IN
         CASE u[1] = "cget" -> IF v = Nil THEN on(<<<<"get", u[2], u[3]>>>>) ELSE on(<<<<"ret", v>>>>)
           [] u[1] = "cns1" -> on(<<<<"cns2", v>>, <<"ns", u[2], u[3]>>>>)
           [] u[1] = "cns2" -> on(<<<<"ret", IF v = Nil THEN u[2] ELSE IF u[2] = Nil THEN v ELSE <<"ch", v, u[2]>>>>>>)
           [] u[1] = "load" -> IF v = Nil THEN on(<<<<"ret", Nil>>>>) ELSE on(Load1(v, u[2]))
           \* what the finder or creator wanted before it returns
           [] u[1] = "finding" -> on(<<<<"findend", u[2], u[3]>>>>)
           [] u[1] = "creating" -> on(<<<<"createend", u[2], u[3]>>>>)

\* The finder or creator that p is at returns (after it has loaded what it needs)
AtEnd(S, p) == S.K[p] # <<>> /\ Top(S.K[p])[1] \in {"findend", "createend"}
End(S, p) ==
  LET K == S.K[p]
      t == Top(K)
      b == Pop(K)
      l == S.L[t[2]]
      n == S.n + 1
  IN
  IF t[1] = "findend" THEN
    LET r == FinderResult(l.f, t[3], n) IN
    IF r[1] = "panic" THEN [S EXCEPT !.K[p] = <<<<"ret", r>>>>, !.n = n]
    ELSE [S EXCEPT !.K[p] = b \o <<<<"found", t[2], t[3], r>>>>, !.n = n]
  ELSE
    LET r == CreatorResult(t[2], l.f, l.c, t[3], n) IN
    IF r = Nil THEN [S EXCEPT !.K[p] = b \o <<<<"made", t[2], t[3], 0>>>>, !.n = n]
    ELSE IF r[1] = "panic" THEN [S EXCEPT !.K[p] = <<<<"ret", r>>>>, !.n = n]
    ELSE [NewBase(S, r[2]) EXCEPT !.K[p] = b \o <<<<"made", t[2], t[3], Len(S.L) + 1>>>>, !.n = n]

\* p leaves the gate that it is at
Leave(S, p) ==
  LET t == Top(S.K[p])
      b == Pop(S.K[p])
      ref == <<"l", t[2]>>
      more == IF t[1] = "find" THEN FinderLoads(t[3]) ELSE CreatorLoads(t[3])
  IN IF t[1] = "find" THEN
       IF more = "" THEN [S EXCEPT !.K[p] = b \o <<<<"findend", t[2], t[3]>>>>]
       ELSE [S EXCEPT !.K[p] = b \o <<<<"finding", t[2], t[3]>>, <<"get", ref, more>>>>]
     ELSE
       IF more = "" THEN [S EXCEPT !.K[p] = b \o <<<<"createend", t[2], t[3]>>>>]
       ELSE [S EXCEPT !.K[p] = b \o <<<<"creating", t[2], t[3]>>, <<"ns", ref, more>>>>]

\* Everything that p does until it stops at a gate or has finished
RECURSIVE Run(_, _)
Run(S, p) ==
  IF Blocked(S, p) \/ Finished(S, p) THEN S
  ELSE IF AtEnd(S, p) THEN Run(End(S, p), p)
  ELSE Run(Micro(S, p), p)

\* <<what is observed, the next state>>
Outcome(S, p) ==
  IF Blocked(S, p) THEN <<<<"gate", Top(S.K[p])>>, S>>
  ELSE <<<<"done", Top(S.K[p])[2]>>, [S EXCEPT !.K[p] = <<>>]>>
Call(S, p, o) == Outcome(Run(Begin(S, p, o), p), p)
Resume(S, p) == Outcome(Run(Leave(S, p), p), p)

\* What can be seen of the loaders from the outside
Project(S) == [i \in 1..Len(S.L) |-> [e |-> S.L[i].e, ns |-> S.L[i].ns]]

\* Properties of a transition from one state of the loaders to another
\* an entry never changes once it's been loaded, and neither does a namespace
Stable(L, M) ==
  /\ Len(L) <= Len(M)
  /\ \A i \in 1..Len(L) :
       /\ SubSeq(M[i].e, 1, Len(L[i].e)) = L[i].e
       /\ SubSeq(M[i].ns, 1, Len(L[i].ns)) = L[i].ns
  
\* an invariant of the loaders: names are unique
Unique(L) ==
  \A i \in 1..Len(L) :
    /\ \A j, k \in 1..Len(L[i].e) : L[i].e[j][1] = L[i].e[k][1] => j = k
    /\ \A j, k \in 1..Len(L[i].ns) : L[i].ns[j][1] = L[i].ns[k][1] => j = k

\* The hierarchies that are started from: <<base loaders, references>>
Rec(k, name, pns, e, f, c) == [k |-> k, name |-> name, pns |-> pns, e |-> e, ns |-> <<>>, f |-> f, c |-> c]
P(k) == <<k, Val("P" \o k, 0)>>
Hierarchy(h) ==
  CASE h = 1 -> <<<<Rec("mut", "", 0, <<P("e")>>, "F", "C")>>, <<<<"l", 1>>>>>>
    [] h = 2 -> <<<<Rec("map", "my", 0, <<P("a"), P("e")>>, "", ""), Rec("mut", "my", 0, <<>>, "F", "C")>>,
                  <<<<"ch", <<"l", 2>>, <<"l", 1>>>>>>>>
    [] h = 3 -> <<<<Rec("mut", "my", 0, <<P("e")>>, "F", "C"), Rec("mut", "my", 0, <<>>, "D", "E")>>,
                  <<<<"ch", <<"l", 2>>, <<"l", 1>>>>, <<"l", 1>>>>>>
    [] h = 4 -> <<<<Rec("mut", "", 0, <<>>, "F", ""), Rec("mut", "", 0, <<>>, "", "C"), Rec("mut", "", 0, <<>>, "D", "E")>>,
                  <<<<"ch", <<"l", 3>>, <<"ch", <<"l", 2>>, <<"l", 1>>>>>>, <<"ch", <<"l", 2>>, <<"l", 1>>>>>>>>
Start(h, np) == [L |-> Hierarchy(h)[1], n |-> 0, K |-> [p \in 1..np |-> <<>>]]
=============================================================================
