-------------------------------- MODULE Alias --------------------------------
(***************************************************************************)
(* The alias machine of dgo. The state S is a record with                  *)
(*   G    all types that have been given a name, by version. A version is  *)
(*        a number that identifies the type that was passed in one         *)
(*        particular call of Add. G is a sequence of <<version, term>>     *)
(*   M    the alias maps. Each is a sequence of <<name, version>>          *)
(*   V    the variables that hold alias maps. V[1] is the default aliases, *)
(*        others are variables of the application                          *)
(*   K    for each process <<>>, or the call that is in progress           *)
(*                                                                         *)
(* Terms are those of Types.tla. In addition there's <<"al", name>>, which *)
(* is a name that is yet to be resolved, and <<"ref", version>>.           *)
(*                                                                         *)
(* A call takes a snapshot of the map, passes an adder to a function that  *)
(* performs a script (add, give, get, parse, gate), and then replaces what the   *)
(* variable holds at that time with a copy that has the additions.         *)
(***************************************************************************)
EXTENDS Types

Lookup(es, k, d) == IF \E i \in 1..Len(es) : es[i][1] = k THEN es[CHOOSE i \in 1..Len(es) : es[i][1] = k][2] ELSE d
\* the entry retains its position when it's replaced
PutIn(es, k, x) ==
  IF \E i \in 1..Len(es) : es[i][1] = k THEN [i \in 1..Len(es) |-> IF es[i][1] = k THEN <<k, x>> ELSE es[i]]
  ELSE Append(es, <<k, x>>)
Term(G, v) == Lookup(G, v, <<"none">>)
IsAlias(t) == t[1] = "al"

\* the version that a name stands for in an adder, 0 when there's none
Known(C, S, name) == LET v == Lookup(C.own, name, 0) IN IF v # 0 THEN v ELSE Lookup(S.M[C.snap], name, 0)

\* the version that a name stands for in the end. A name can be an alias for another one. 0 when it doesn't stand for anything
RECURSIVE Final(_, _, _, _)
Final(C, S, name, n) ==
  LET v == Known(C, S, name) IN
  IF v = 0 \/ ~IsAlias(Term(S.G, v)) THEN v
  ELSE IF n = 0 THEN 0 ELSE Final(C, S, Term(S.G, v)[2], n - 1)
FinalOf(C, S, name) == Final(C, S, name, Len(C.own))

\* A term where the unresolved names have been replaced
RECURSIVE Resolve(_, _, _)
Resolve(C, S, t) ==
  CASE IsAlias(t) -> <<"ref", FinalOf(C, S, t[2])>>
    [] t[1] = "arrz" -> <<"arrz", Resolve(C, S, t[2]), t[3], t[4]>>
    [] t[1] = "anyof" -> <<"anyof", [i \in 1..Len(t[2]) |-> Resolve(C, S, t[2][i])]>>
    [] t[1] = "struct" -> <<"struct", [i \in 1..Len(t[2]) |-> <<t[2][i][1], Resolve(C, S, t[2][i][2]), t[2][i][3]>>], t[3]>>
    [] OTHER -> t
RECURSIVE RefsOf(_)
\* the versions that a resolved term refers to
RefsOf(t) ==
  CASE t[1] = "ref" -> {t[2]}
    [] t[1] = "arrz" -> RefsOf(t[2])
    [] t[1] = "anyof" -> UNION {RefsOf(t[2][i]) : i \in 1..Len(t[2])}
    [] t[1] = "struct" -> UNION {RefsOf(t[2][i][2]) : i \in 1..Len(t[2])}
    [] OTHER -> {}

\* Resolves everything that is reachable from the versions in todo. <<S, ok>>
RECURSIVE ResolveAll(_, _, _, _)
ResolveAll(C, S, todo, done) ==
  IF todo = {} THEN <<S, TRUE>>
  ELSE LET v == CHOOSE v \in todo : TRUE IN
       IF v = 0 THEN <<S, FALSE>>
       ELSE LET r == Resolve(C, S, Term(S.G, v))
            IN IF IsAlias(Term(S.G, v)) THEN ResolveAll(C, S, (todo \ {v}) \cup ({r[2]} \ done), done \cup {v})
               ELSE ResolveAll(C, [S EXCEPT !.G = PutIn(S.G, v, r)], (todo \ {v}) \cup (RefsOf(r) \ (done \cup {v})), done \cup {v})

\* The name of a type when it's parsed: what's known is used as it is
RECURSIVE Bind(_, _, _, _)
Bind(C, S, self, t) ==
  CASE IsAlias(t) -> IF t[2] # self /\ Known(C, S, t[2]) # 0 THEN <<"ref", Known(C, S, t[2])>> ELSE t
    [] t[1] = "arrz" -> <<"arrz", Bind(C, S, self, t[2]), t[3], t[4]>>
    [] t[1] = "anyof" -> <<"anyof", [i \in 1..Len(t[2]) |-> Bind(C, S, self, t[2][i])]>>
    [] t[1] = "struct" -> <<"struct", [i \in 1..Len(t[2]) |-> <<t[2][i][1], Bind(C, S, self, t[2][i][2]), t[2][i][3]>>], t[3]>>
    [] OTHER -> t
\* a reference to a version that is an alias itself is resolved with it
RECURSIVE Chase(_, _, _)
Chase(C, S, t) ==
  CASE t[1] = "ref" -> IF IsAlias(Term(S.G, t[2])) THEN <<"ref", FinalOf(C, S, Term(S.G, t[2])[2])>> ELSE t
    [] t[1] = "arrz" -> <<"arrz", Chase(C, S, t[2]), t[3], t[4]>>
    [] t[1] = "anyof" -> <<"anyof", [i \in 1..Len(t[2]) |-> Chase(C, S, t[2][i])]>>
    [] t[1] = "struct" -> <<"struct", [i \in 1..Len(t[2]) |-> <<t[2][i][1], Chase(C, S, t[2][i][2]), t[2][i][3]>>], t[3]>>
    [] OTHER -> t

\* The script of a call. C.rest is what remains of it. Performing it yields <<S, C, out>> where out is gate, end or panic
RECURSIVE Script(_, _)
Script(S, C) ==
  IF C.rest = <<>> THEN <<S, C, "end">>
  ELSE LET o == C.rest[1]
           R == [C EXCEPT !.rest = Tail(@)]
       IN
       CASE o.op = "gate" -> <<S, R, "gate">>
         [] o.op = "add" -> Script([S EXCEPT !.G = PutIn(@, o.v, o.t)], [R EXCEPT !.own = PutIn(@, o.name, o.v)])
         [] o.op = "give" -> Script(S, [R EXCEPT !.own = PutIn(@, o.name, o.v)])
         [] o.op = "get" -> Script(S, [R EXCEPT !.obs = Append(@, Known(C, S, o.name))])
         [] o.op = "parse" ->
              IF Known(C, S, o.name) # 0 THEN <<S, R, "redeclare">>
              ELSE LET t == Bind(C, S, o.name, o.t) IN
                   IF t[1] = "ref" THEN
                     LET T == [R EXCEPT !.own = PutIn(@, o.name, t[2])]
                         a == ResolveAll(T, S, {t[2]}, {})
                     IN IF a[2] THEN Script(a[1], T) ELSE <<S, R, "unresolved">>
                   ELSE
                     LET T == [R EXCEPT !.own = PutIn(@, o.name, o.v)]
                         S2 == [S EXCEPT !.G = PutIn(@, o.v, t)]
                         S3 == [S2 EXCEPT !.G = PutIn(@, o.v, Chase(T, S2, t))]
                         a == ResolveAll(T, S3, {o.v}, {})
                     IN IF a[2] THEN Script(a[1], T) ELSE <<S, R, "unresolved">>

\* The additions of a call are made to the map m (an index). <<S, index>>, and the index is 0 when something is unresolved
Update(S, C, m) ==
  IF C.own = <<>> THEN <<S, m>>
  ELSE LET a == ResolveAll(C, S, {C.own[i][2] : i \in 1..Len(C.own)}, {})
           final(v) == IF IsAlias(Term(S.G, v)) THEN FinalOf(C, S, Term(S.G, v)[2]) ELSE v
           RECURSIVE all(_, _)
           all(es, os) == IF os = <<>> THEN es ELSE all(PutIn(es, os[1][1], final(os[1][2])), Tail(os))
       IN IF ~a[2] THEN <<S, 0>>
          ELSE <<[a[1] EXCEPT !.M = Append(@, all(S.M[m], C.own))], Len(S.M) + 1>>

\* Starting a call. What it reads is the map that the variable holds now
Begin(S, p, o) ==
  [S EXCEPT !.K[p] = [on |-> o.on, i |-> o.i, snap |-> IF o.on = "var" THEN S.V[o.i] ELSE o.i, own |-> <<>>, rest |-> o.script, obs |-> <<>>]]

\* Finishing a call whose script has ended. <<S, result>>
Finish(S, p) ==
  LET C == S.K[p]
      u == Update(S, C, IF C.on = "var" THEN S.V[C.i] ELSE C.i)
      E == [S EXCEPT !.K[p] = <<>>]
  IN IF u[2] = 0 THEN <<E, <<"panic", "unresolved">>>>
     ELSE <<[u[1] EXCEPT !.K[p] = <<>>, !.V = IF C.on = "var" THEN [@ EXCEPT ![C.i] = u[2]] ELSE @], <<"done", C.obs, u[2]>>>>

\* What a process does until it stops. <<outcome, S>>
Go(S, p) ==
  LET x == Script(S, S.K[p])
      T == [x[1] EXCEPT !.K[p] = x[2]]
  IN CASE x[3] = "gate" -> <<<<"gate">>, T>>
       [] x[3] = "end" -> LET f == Finish(T, p) IN <<f[2], f[1]>>
       [] OTHER -> <<<<"panic", x[3]>>, [S EXCEPT !.K[p] = <<>>]>>
Call(S, p, o) == Go(Begin(S, p, o), p)
Resume(S, p) == Go(S, p)

Start(np, nv) == [G |-> <<>>, M |-> <<<<>>>>, V |-> [i \in 1..nv |-> 1], K |-> [p \in 1..np |-> <<>>]]

\* Equality of types that may be recursive: they are equal unless they can be told apart
RECURSIVE EqV(_, _, _, _)
EqV(G, a, b, seen) ==
  LET x == IF a[1] = "ref" THEN Term(G, a[2]) ELSE a
      y == IF b[1] = "ref" THEN Term(G, b[2]) ELSE b
      more == seen \cup {<<a, b>>}
  IN \/ a = b
     \/ <<a, b>> \in seen
     \/ /\ x[1] = y[1]
        /\ CASE x[1] = "arrz" -> x[3] = y[3] /\ x[4] = y[4] /\ EqV(G, x[2], y[2], more)
             [] x[1] = "struct" ->
                  /\ Len(x[2]) = Len(y[2]) /\ x[3] = y[3]
                  /\ \A i \in 1..Len(x[2]) : x[2][i][1] = y[2][i][1] /\ x[2][i][3] = y[2][i][3] /\ EqV(G, x[2][i][2], y[2][i][2], more)
             [] x[1] = "anyof" ->
                  /\ Len(x[2]) = 2 /\ Len(y[2]) = 2
                  /\ \/ EqV(G, x[2][1], y[2][1], more) /\ EqV(G, x[2][2], y[2][2], more)
                     \/ EqV(G, x[2][1], y[2][2], more) /\ EqV(G, x[2][2], y[2][1], more)
             [] OTHER -> x = y

\* Does the reverse lookup agree with the map: name is what the map says that the type (a version) is called, or ""
NameOk(S, m, v, name) ==
  IF name = "" THEN ~\E i \in 1..Len(S.M[m]) : S.M[m][i][2] = v
  ELSE LET w == Lookup(S.M[m], name, 0) IN w # 0 /\ EqV(S.G, <<"ref", v>>, <<"ref", w>>, {})

\* additions are retained until they are replaced by another addition: the names of a variable's map never vanish
Retained(S, T) ==
  /\ \A i \in 1..Len(S.V) : \A j \in 1..Len(S.M[S.V[i]]) : \E k \in 1..Len(T.M[T.V[i]]) : T.M[T.V[i]][k][1] = S.M[S.V[i]][j][1]
  \* a map is never changed
  /\ \A i \in 1..Len(S.M) : T.M[i] = S.M[i]
Resolved(S) ==
  \A m \in 1..Len(S.M) : \A i \in 1..Len(S.M[m]) :
    LET v == S.M[m][i][2] IN v # 0 /\ ~IsAlias(Term(S.G, v)) /\ 0 \notin RefsOf(Term(S.G, v))
=============================================================================
