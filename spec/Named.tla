------------------------------- MODULE Named -------------------------------
(***************************************************************************)
(* Named types (P26): the registry of types that a program defines, what   *)
(* such types and the values of them are equal to, what is assignable to   *)
(* them, what instances they have, how values are made, and what becomes   *)
(* of types and values that are printed and parsed, or streamed and read.  *)
(*                                                                         *)
(* The state S is the sequence D of all definitions there have been, and   *)
(* reg, that has what definition a name stands for now (0 is none).        *)
(*                                                                         *)
(* A definition has a name, impl (what Go type its values are of, or "" if *)
(* it doesn't tell), ifd (is anything that implements the interface also   *)
(* an instance), ctor (the constructor), ext (can the argument that a      *)
(* value was made from be extracted), and chk (has it a checker of its own *)
(* that takes its parameters for a range).                                 *)
(*                                                                         *)
(* Values: <<"n">> <<"b", b>> <<"i", i>> <<"f", text>> <<"s", text>>       *)
(* <<"arr", values>> <<"map", pairs>> <<"t", type>>, and <<"nv", i, k, a>> *)
(* that is the value of Go type k of definition i made from the argument a *)
(* Types: <<"named", i>> <<"par", i, parameters>> <<"exact", value>>       *)
(* <<"x", value>> (of values that aren't of a named type) <<"plain", name>>*)
(* <<"anyof", types>> <<"all", types>> <<"one", types>> <<"not", type>>    *)
(* <<"list", type>> <<"tup", types>> <<"meta", type>>                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Names == {"n", "m", "k", "Big_1"}
Kinds == {"A", "B", "C"}
Start == [D |-> <<>>, reg |-> [n \in Names |-> 0]]

-----------------------------------------------------------------------------
\* The registry. The first definition of a name stands until it's removed.

Register(S, d) ==
  IF S.reg[d.name] # 0 THEN <<FALSE, S>>
  ELSE <<TRUE, [D |-> Append(S.D, d), reg |-> [S.reg EXCEPT ![d.name] = Len(S.D) + 1]]>>
Remove(S, name) == [S EXCEPT !.reg[name] = 0]
Lookup(S, name) == S.reg[name]
\* the definitions that have a given Go type
OfImpl(S, k) == {i \in {S.reg[n] : n \in Names} \ {0} : S.D[i].impl = k}

-----------------------------------------------------------------------------
\* Equality

RECURSIVE EqN(_, _, _)
RECURSIVE EqT(_, _, _)
\* Types are equal when they have the same name and equal parameters, values when they are of equal types and made from
\* equal arguments
EqN(D, v, w) ==
  IF v[1] # w[1] THEN FALSE
  ELSE CASE v[1] = "arr" -> Len(v[2]) = Len(w[2]) /\ \A i \in 1..Len(v[2]) : EqN(D, v[2][i], w[2][i])
         [] v[1] = "map" ->
              /\ Len(v[2]) = Len(w[2])
              /\ \A i \in 1..Len(v[2]) : \E j \in 1..Len(w[2]) :
                   EqN(D, v[2][i][1], w[2][j][1]) /\ EqN(D, v[2][i][2], w[2][j][2])
         [] v[1] = "nv" -> v[3] = w[3] /\ D[v[2]].name = D[w[2]].name /\ EqN(D, v[4], w[4])
         [] v[1] = "t" -> EqT(D, v[2], w[2])
         [] OTHER -> v = w
SeqEqN(D, s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : EqN(D, s[i], t[i])
\* The order and number of the operands of a logical operator don't matter
Logical == {"anyof", "all", "one"}
EqT(D, t, u) ==
  IF t[1] \in Logical /\ t[1] = u[1] THEN
       /\ \A i \in 1..Len(t[2]) : \E j \in 1..Len(u[2]) : EqT(D, t[2][i], u[2][j])
       /\ \A j \in 1..Len(u[2]) : \E i \in 1..Len(t[2]) : EqT(D, t[2][i], u[2][j])
  ELSE IF t[1] \in {"anyof", "all"} /\ u[1] # t[1] THEN \A i \in 1..Len(t[2]) : EqT(D, t[2][i], u)
  ELSE IF t[1] # u[1] THEN FALSE
  ELSE CASE t[1] = "named" -> D[t[2]].name = D[u[2]].name
         [] t[1] = "par" -> D[t[2]].name = D[u[2]].name /\ SeqEqN(D, t[3], u[3])
         [] t[1] \in {"exact", "x"} -> EqN(D, t[2], u[2])
         [] t[1] \in {"not", "list", "meta"} -> EqT(D, t[2], u[2])
         [] t[1] = "tup" -> Len(t[2]) = Len(u[2]) /\ \A i \in 1..Len(t[2]) : EqT(D, t[2][i], u[2][i])
         [] OTHER -> t = u

-----------------------------------------------------------------------------
\* Assignability and instances

Family == {"named", "par", "exact"}
TypeOf(v) == IF v[1] = "nv" THEN <<"exact", v>> ELSE IF v[1] = "t" THEN <<"meta", v[2]>> ELSE <<"x", v>>
\* the index of the definition of a type of the family, and whether it's a type that has a definition
HasDef(t) == t[1] \in {"named", "par"} \/ (t[1] = "exact" /\ t[2][1] = "nv")
DefOf(t) == IF t[1] = "exact" THEN t[2][2] ELSE t[2]
Generic(t) == IF t[1] \in Family THEN <<"named", DefOf(t)>> ELSE <<"none">>

\* What a checker that takes parameters for a range says
IsRange(t) == t[1] = "par" /\ Len(t[3]) = 2 /\ t[3][1][1] = "i" /\ t[3][2][1] = "i"
RangeChk(D, t, u) ==
  /\ HasDef(u) /\ D[DefOf(u)].name = D[DefOf(t)].name
  /\ IsRange(t) =>
       IF u[1] = "exact" THEN u[2][4][1] = "i" /\ t[3][1][2] <= u[2][4][2] /\ u[2][4][2] <= t[3][2][2]
       ELSE IsRange(u) /\ t[3][1][2] <= u[3][1][2] /\ u[3][2][2] <= t[3][2][2]

Implements(k) == k \in {"B", "C"}
\* Without a checker what counts is the Go type. A type that is defined by an interface isn't assignable to one that isn't,
\* since it has instances of other Go types. The names decide when the Go types aren't known.
DefaultChk(D, t, u) ==
  /\ HasDef(u)
  /\ LET d == D[DefOf(t)]
         e == D[DefOf(u)]
     IN IF (d.impl = "" /\ ~d.ifd) \/ e.impl = "" THEN d.name = e.name
        ELSE IF d.ifd THEN (u[1] # "exact" /\ e.ifd) \/ Implements(e.impl)
        ELSE d.impl = e.impl /\ ~(u[1] # "exact" /\ e.ifd)
Chk(D, t, u) == IF D[DefOf(t)].chk THEN RangeChk(D, t, u) ELSE DefaultChk(D, t, u)

RECURSIVE Asg(_, _, _)
Direct(D, t, u) ==
  CASE t[1] \in {"named", "par"} -> Chk(D, t, u)
    [] t[1] = "exact" -> u[1] = "exact" /\ EqN(D, t[2], u[2])
    [] t[1] = "plain" -> t[2] = "any" \/ t = u \/ (u[1] = "x" /\ t[2] = "int" /\ u[2][1] = "i")
                         \/ (u[1] = "x" /\ t[2] = "string" /\ u[2][1] = "s")
    [] t[1] = "x" -> u[1] = "x" /\ EqN(D, t[2], u[2])
    [] t[1] = "anyof" -> \E i \in 1..Len(t[2]) : Asg(D, t[2][i], u)
    [] t[1] = "all" -> \A i \in 1..Len(t[2]) : Asg(D, t[2][i], u)
    [] OTHER -> FALSE
Asg(D, t, u) ==
  \/ Direct(D, t, u)
  \/ u[1] = "anyof" /\ \A i \in 1..Len(u[2]) : Asg(D, t, u[2][i])
  \/ u[1] = "all" /\ \E i \in 1..Len(u[2]) : Asg(D, t, u[2][i])
\* are the types of the kinds that Asg is decisive for?
RECURSIVE Decided(_)
Decided(t) == t[1] \in {"named", "par", "exact", "plain", "x"} \/ (t[1] = "anyof" /\ \A i \in 1..Len(t[2]) : Decided(t[2][i]))
RECURSIVE DecidedL(_)
DecidedL(t) == t[1] \in {"named", "par", "exact", "plain", "x"} \/ (t[1] \in {"anyof", "all"} /\ \A i \in 1..Len(t[2]) : DecidedL(t[2][i]))

RECURSIVE In(_, _, _)
In(D, t, v) ==
  CASE t[1] \in {"named", "par"} -> Chk(D, t, TypeOf(v))
    [] t[1] \in {"exact", "x"} -> EqN(D, t[2], v)
    [] t[1] = "plain" -> t[2] = "any" \/ (t[2] = "int" /\ v[1] = "i") \/ (t[2] = "string" /\ v[1] = "s")
    [] t[1] = "anyof" -> \E i \in 1..Len(t[2]) : In(D, t[2][i], v)
    [] t[1] = "all" -> \A i \in 1..Len(t[2]) : In(D, t[2][i], v)
    [] t[1] = "one" -> Cardinality({i \in 1..Len(t[2]) : In(D, t[2][i], v)}) = 1
    [] t[1] = "not" -> ~In(D, t[2], v)
    [] t[1] = "list" -> v[1] = "arr" /\ \A i \in 1..Len(v[2]) : In(D, t[2], v[2][i])
    [] t[1] = "tup" -> v[1] = "arr" /\ Len(v[2]) = Len(t[2]) /\ \A i \in 1..Len(v[2]) : In(D, t[2][i], v[2][i])
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
\* New values

Refused == <<"refused">>
Made(D, i, arg) ==
  LET d == D[i]
      k == IF d.impl = "" THEN "A" ELSE d.impl
  IN  CASE d.ctor = "" -> Refused
        [] d.ctor = "same" -> <<"ok", arg>>
        [] d.ctor = "ints" /\ arg[1] # "i" -> Refused
        [] d.ctor = "clip" /\ arg[1] = "i" /\ arg[2] > 5 -> <<"ok", <<"nv", i, k, <<"i", 5>>>>>>
        [] OTHER -> <<"ok", <<"nv", i, k, arg>>>>
\* What the constructor makes is refused when it isn't the value that is called for, or the checker doesn't accept it
New(D, t, arg) ==
  LET r == Made(D, DefOf(t), arg) IN
  IF r[1] # "ok" THEN r
  ELSE IF t[1] = "exact" /\ ~EqN(D, t[2], r[2]) THEN Refused
  ELSE IF D[DefOf(t)].chk /\ ~RangeChk(D, t, TypeOf(r[2])) THEN Refused
  ELSE r

-----------------------------------------------------------------------------
\* What a reader makes of what a value or type was written as. It's made anew, from the inside out, with what the names stand
\* for when it's read. The second field is what to expect if the first is TRUE.

RECURSIVE Read(_, _)
RECURSIVE ReadT(_, _)
ReadSeq(S, vs, Rd(_, _)) ==
  LET rs == [i \in 1..Len(vs) |-> Rd(S, vs[i])]
  IN  IF \A i \in 1..Len(vs) : rs[i][1] = "ok" THEN <<"ok", [i \in 1..Len(vs) |-> rs[i][2]]>> ELSE Refused
Read(S, v) ==
  CASE v[1] = "arr" -> LET r == ReadSeq(S, v[2], Read) IN IF r[1] = "ok" THEN <<"ok", <<"arr", r[2]>>>> ELSE r
    [] v[1] = "map" ->
         LET ks == ReadSeq(S, [i \in 1..Len(v[2]) |-> v[2][i][1]], Read)
             xs == ReadSeq(S, [i \in 1..Len(v[2]) |-> v[2][i][2]], Read)
         IN  IF ks[1] = "ok" /\ xs[1] = "ok" THEN <<"ok", <<"map", [i \in 1..Len(v[2]) |-> <<ks[2][i], xs[2][i]>>]>>>> ELSE Refused
    [] v[1] = "nv" ->
         LET i == S.reg[S.D[v[2]].name]
             a == Read(S, v[4])
         IN  IF i = 0 \/ a[1] # "ok" THEN Refused ELSE New(S.D, <<"named", i>>, a[2])
    [] v[1] = "t" -> LET r == ReadT(S, v[2]) IN IF r[1] = "ok" THEN <<"ok", <<"t", r[2]>>>> ELSE r
    [] OTHER -> <<"ok", v>>
ReadT(S, t) ==
  CASE t[1] = "named" -> LET i == S.reg[S.D[t[2]].name] IN IF i = 0 THEN Refused ELSE <<"ok", <<"named", i>>>>
    [] t[1] = "exact" ->
         LET r == Read(S, t[2]) IN
         IF r[1] # "ok" THEN r ELSE IF r[2][1] = "t" THEN <<"ok", r[2][2]>> ELSE <<"ok", TypeOf(r[2])>>
    [] t[1] \in {"anyof", "all", "one", "tup"} -> LET r == ReadSeq(S, t[2], ReadT) IN IF r[1] = "ok" THEN <<"ok", <<t[1], r[2]>>>> ELSE r
    [] t[1] \in {"not", "list", "meta"} -> LET r == ReadT(S, t[2]) IN IF r[1] = "ok" THEN <<"ok", <<t[1], r[2]>>>> ELSE r
    [] OTHER -> <<"ok", t>>

\* Can the arguments of a value, and of those within it, be extracted?
RECURSIVE Extractable(_, _)
Extractable(D, v) ==
  CASE v[1] = "arr" -> \A i \in 1..Len(v[2]) : Extractable(D, v[2][i])
    [] v[1] = "map" -> \A i \in 1..Len(v[2]) : Extractable(D, v[2][i][1]) /\ Extractable(D, v[2][i][2])
    [] v[1] = "nv" -> D[v[2]].ext /\ Extractable(D, v[4])
    [] OTHER -> TRUE
=============================================================================
