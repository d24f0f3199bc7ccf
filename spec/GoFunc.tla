-------------------------------- MODULE GoFunc -------------------------------
(***************************************************************************)
(* Go functions that are wrapped as dgo Functions, and their types (P23).  *)
(*                                                                         *)
(* A signature is <<"func", parameters, is variadic, results>>, all of go  *)
(* types (see GoValues.tla, the last parameter of a variadic one is a      *)
(* slice). A type is                                                       *)
(*   <<"any">> <<"bool">> <<"string">> <<"nil">> <<"error">> <<"time">>    *)
(*   <<"regexp">> <<"int", bits>> <<"uint", bits>> <<"float", bits>>       *)
(*   <<"bin">> <<"arr", t>> <<"map", k, v>> <<"opt", t>> (t or nil)                  *)
(*   <<"nat", go type>>                                                    *)
(*   <<"func", parameters, is variadic, results, is variadic>>             *)
(* where the last of something variadic may occur any number of times.     *)
(***************************************************************************)
EXTENDS GoValues

\* the elements of a slice
Elem(g) == IF g[1] = "bytes" THEN <<"uint", 8>> ELSE g[2]
\* the type of what a go type holds
RECURSIVE TypeOf(_)
TypeOf(g) ==
  CASE g[1] \in {"bool", "string", "error", "time", "regexp", "int", "uint", "float"} -> g
    [] g[1] = "iface" -> <<"any">>
    [] g[1] = "bytes" -> <<"bin">>
    [] g[1] = "slice" -> <<"arr", TypeOf(g[2])>>
    [] g[1] = "garr" -> <<"arr", TypeOf(g[3])>>
    [] g[1] = "map" -> <<"map", TypeOf(g[2]), TypeOf(g[3])>>
    [] g[1] = "ptr" -> LET t == TypeOf(g[2]) IN IF t[1] \in {"any", "opt", "nil"} THEN t ELSE <<"opt", t>>
    [] g[1] = "func" ->
         LET n == Len(g[2]) IN
         <<"func", [i \in 1..n |-> IF i = n /\ g[3] THEN TypeOf(Elem(g[2][i])) ELSE TypeOf(g[2][i])],
           g[3], [i \in DOMAIN g[4] |-> TypeOf(g[4][i])], FALSE>>
    [] OTHER -> <<"nat", g>>

RECURSIVE Sub(_, _)
\* whether a tuple is within another
TupleSub(t, tv, u, uv) ==
  LET tn == IF tv THEN Len(t) - 1 ELSE Len(t)
      un == IF uv THEN Len(u) - 1 ELSE Len(u)
      n == IF tn > un THEN tn ELSE un
      at(x, xn, i) == IF i <= xn THEN x[i] ELSE x[Len(x)] IN
  /\ tn <= un                        \* not shorter
  /\ tv \/ (~uv /\ un <= tn)         \* not longer
  /\ \A i \in 1..n : Sub(at(t, tn, i), at(u, un, i))
  /\ ~uv \/ Sub(t[Len(t)], u[Len(u)])
\* whether all that are of type u are of type t
Sub(t, u) ==
  CASE t[1] = "any" -> TRUE
    [] u[1] = "opt" -> t[1] = "opt" /\ Sub(t, u[2])
    [] t[1] = "opt" -> u[1] = "nil" \/ Sub(t[2], u)
    [] t[1] = "int" -> (u[1] = "int" /\ u[2] <= t[2]) \/ (u[1] = "uint" /\ (u[2] < t[2] \/ t[2] = 64))
    [] t[1] = "uint" -> u[1] = "uint" /\ u[2] <= t[2]
    [] t[1] = "float" -> u[1] = "float" /\ u[2] <= t[2]
    [] t[1] = "arr" -> u[1] = "arr" /\ Sub(t[2], u[2])
    [] t[1] = "map" -> u[1] = "map" /\ Sub(t[2], u[2]) /\ Sub(t[3], u[3])
    [] t[1] = "func" ->
         /\ u[1] = "func"
         /\ t[3] = u[3] \/ (t[3] /\ t[2] = <<<<"any">>>>)    \* all parameters
         /\ TupleSub(t[2], t[3], u[2], u[3])
         /\ TupleSub(t[4], t[5], u[4], u[5])
    [] OTHER -> t = u

\* whether a value is of a type: <<TRUE>>, <<FALSE>>, or <<>> for natives and floats that are too large for a float32
RECURSIVE Inst(_, _)
Both(rs) == IF \E i \in DOMAIN rs : rs[i] = <<FALSE>> THEN <<FALSE>> ELSE IF \E i \in DOMAIN rs : rs[i] = <<>> THEN <<>> ELSE <<TRUE>>
Inst(t, v) ==
  CASE t[1] = "any" -> <<TRUE>>
    [] t[1] = "nat" -> <<>>
    [] t[1] = "opt" -> IF v[1] = "n" THEN <<TRUE>> ELSE Inst(t[2], v)
    [] v[1] = "nat" -> <<>>
    [] t[1] = "nil" -> <<v[1] = "n">>
    [] t[1] = "bool" -> <<v[1] = "b">>
    [] t[1] = "string" -> <<v[1] = "s">>
    [] t[1] = "error" -> <<v[1] = "err">>
    [] t[1] = "time" -> <<v[1] = "tm">>
    [] t[1] = "regexp" -> <<v[1] = "rx">>
    [] t[1] = "int" -> <<v[1] = "i" /\ FitsInt(t[2], v)>>
    [] t[1] = "uint" -> <<v[1] = "i" /\ FitsUint(t[2], v)>>
    [] t[1] = "float" -> IF v[1] # "f" THEN <<FALSE>> ELSE IF t[2] = 64 THEN <<TRUE>> ELSE IF v[4] \/ v[3] \in {"NaN", "+Inf", "-Inf", "0x1.fffffep+127", "-0x1.fffffep+127"} THEN <<>> ELSE <<TRUE>>
    [] t[1] = "bin" -> <<v[1] = "bin">>
    [] t[1] = "arr" -> IF v[1] # "arr" THEN <<FALSE>> ELSE Both([i \in DOMAIN v[2] |-> Inst(t[2], v[2][i])])
    [] t[1] = "map" -> IF v[1] # "map" THEN <<FALSE>>
                       ELSE Both([i \in DOMAIN v[2] |-> Both(<<Inst(t[2], v[2][i][1]), Inst(t[3], v[2][i][2])>>)])
    [] t[1] = "func" -> <<v[1] = "fn" /\ Sub(t, TypeOf(v[2]))>>
    [] OTHER -> <<>>

-----------------------------------------------------------------------------
CountOk(sig, n) == IF sig[3] THEN n >= Len(sig[2]) - 1 ELSE n = Len(sig[2])
ParamOf(sig, i) == IF sig[3] /\ i >= Len(sig[2]) THEN Elem(sig[2][Len(sig[2])]) ELSE sig[2][i]
\* what the function must get when it's called with the arguments, each as <<"ok", ..>>, <<"no">> or <<"?">>
Given(sig, args) == [i \in DOMAIN args |-> To(ParamOf(sig, i), args[i])]

\* what is wrong about a call: ev has sig, args, calls (the number of times that the function was called), got (what it got: one
\* for each argument), rets (what it returned), out (<<"no">> or <<"ok", results>>)
CallWrong(ev) ==
  LET sig == ev.sig
      n == Len(ev.args) IN
  IF ~CountOk(sig, n) THEN (IF ev.calls = 0 /\ ev.out[1] = "no" THEN {} ELSE {<<"number of arguments isn't refused">>})
  ELSE
  LET r == Given(sig, ev.args) IN
  IF \E i \in 1..n : r[i][1] = "no" THEN (IF ev.calls = 0 /\ ev.out[1] = "no" THEN {} ELSE {<<"argument isn't refused">>})
  ELSE IF (\E i \in 1..n : r[i][1] = "?" \/ Rounds(ev.args[i]) \/ RoundKeys(ev.args[i])) /\ ev.calls = 0
       THEN (IF ev.out[1] = "no" THEN {} ELSE {<<"results without a call">>})
  ELSE
    (IF ev.calls = 1 THEN {} ELSE {<<"calls", ev.calls>>})
    \cup (IF Len(ev.got) = n THEN {<<"argument", i, r[i]>> : i \in {j \in 1..n : r[j][1] = "ok" /\ ~RoundKeys(ev.args[j]) /\ ~SameGo(ParamOf(sig, j), r[j][2], ev.got[j])}}
          ELSE {<<"other number of arguments">>})
    \cup (LET is == [i \in DOMAIN ev.rets |-> Image(sig[4][i], ev.rets[i])] IN
          IF \E i \in DOMAIN is : is[i][1] = "no" THEN (IF ev.out[1] = "no" THEN {} ELSE {<<"result can't be represented">>})
          ELSE IF ev.out[1] # "ok" \/ Len(ev.out[2]) # Len(is) THEN {<<"no results">>}
          ELSE {<<"result", i, is[i]>> : i \in {j \in DOMAIN is : ~Is(is[j], ev.out[2][j])}}
               \* a nil that isn't a dgo value remains a nil of go
               \cup {<<"nil", i>> : i \in {j \in DOMAIN is : ev.nils[j] # (ev.out[2][j] = <<"n">> /\ ~ev.dvals[j])}})


\* whether the arguments are an instance of the tuple of parameters
ParametersWrong(ev) ==
  LET sig == ev.sig
      r == Both([i \in DOMAIN ev.args |-> Inst(TypeOf(ParamOf(sig, i)), ev.args[i])])
      x == IF CountOk(sig, Len(ev.args)) THEN r ELSE <<FALSE>> IN
  IF x = <<>> \/ ev["in"] = x[1] THEN {} ELSE {<<"instance of the parameters">>}
=============================================================================
