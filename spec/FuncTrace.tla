------------------------------- MODULE FuncTrace ------------------------------
\* Calls of wrapped go functions, and their types, as recorded from the code (P23). Each line stands on its own.
EXTENDS GoFunc, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
W(p, what) == IF p THEN {} ELSE {what}

\* the type of a wrapped function
TypeWrong(ev) ==
  LET t == TypeOf(ev.sig) IN
  W(ev.type = t, <<"is of type", t>>)
  \cup W(ev.len = <<Len(t[2]), IF t[3] THEN Len(t[2]) - 1 ELSE Len(t[2]), IF t[3] THEN -1 ELSE Len(t[2])>>, <<"number of parameters">>)
  \cup W(ev.self, <<"isn't an instance of its own type">>)
  \cup W(ev.all, <<"isn't an instance of the type of all functions">>)
  \cup W(~ev.none, <<"is an instance of a type that isn't a function type">>)
  \cup W(ev.back, <<"the go function isn't what was wrapped">>)

\* two function types, the first or both of which may be wrapped functions'
Of(x) == IF x[1] = "go" THEN TypeOf(x[2]) ELSE x[2]
PairWrong(ev) ==
  LET t == Of(ev.t)
      u == Of(ev.u) IN
  W(ev.sub = Sub(t, u), <<"assignable">>) \cup W(ev.sup = Sub(u, t), <<"assignable from">>)
  \cup W(\A i \in DOMAIN ev.inst : ev.inst[i] = Sub(t, u), <<"instance">>)
  \cup W(ev.eq = (t = u), <<"equal">>) \cup W(ev.qe = (t = u), <<"equal the other way">>)
  \cup W(t = u => ev.hash, <<"hash codes differ">>)

Wrong(ev) ==
  CASE ev.op = "call" -> CallWrong(ev) \cup ParametersWrong(ev)
    [] ev.op = "type" -> TypeWrong(ev)
    [] ev.op = "pair" -> PairWrong(ev)
    [] OTHER -> {<<"unexpected event">>}

Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.op = "reset" THEN TRUE
     ELSE IF ev.op = "panic" THEN PrintT(<<"REJECT", l, "unexpected panic">>)
     ELSE LET w == Wrong(ev) IN w # {} => PrintT(<<"REJECT", l, w>>)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
