------------------------------- MODULE NewTrace ------------------------------
(* Judges recordings of New. Each line stands on its own. *)
EXTENDS New, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

W(p, what) == IF p THEN {} ELSE {what}
Env(ev) == [asg |-> Range(ev.asg), dgo |-> Range(ev.dgo), ali |-> ev.ali,
            nums |-> ev.nums, reals |-> ev.reals, round |-> ev.round, trunc |-> ev.trunc, texts |-> ev.texts]

Wrong(ev) ==
  IF ev.op # "new" THEN {<<"unexpected event">>}
  ELSE
  LET E == Env(ev)
      m == Made(E, ev.t, ev.args)
  IN
  IF ev.ok THEN
    W(In(E, ev.res, ev.t), <<"not an instance">>)
    \cup W(m[1] # "no", <<"not refused">>)
    \cup W(m[1] = "ok" => Eq(ev.res, m[2]), <<"made something else">>)
    \cup W(ev.inst, <<"says that it isn't an instance">>)
    \cup W(ev.apart, <<"changes with its argument">>)
  ELSE
    W(m[1] # "ok", <<"refused">>)
    \cup W(~ev.crash, <<"refused without an error">>)

Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.op = "reset" THEN TRUE
     ELSE IF ev.op = "panic" THEN PrintT(<<"REJECT", l, "unexpected panic">>)
     ELSE LET w == Wrong(ev) IN w # {} => PrintT(<<"REJECT", l, w>>)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
