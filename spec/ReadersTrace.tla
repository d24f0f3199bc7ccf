----------------------------- MODULE ReadersTrace ----------------------------
(***************************************************************************)
(* Histories of goroutines that read the same frozen values and types at   *)
(* the same time, recorded from the code (P21). Each line has the values,  *)
(* the types, the reads, what each of them yields when it is alone (on     *)
(* equal values that nobody else has), and what it yielded to each of the  *)
(* goroutines. Equality and instances must also be as Types.tla says.      *)
(***************************************************************************)
EXTENDS Types, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Env(ev) == [asg |-> Range(ev.asg), dgo |-> Range(ev.dgo), ali |-> ev.ali]
W(p, what) == IF p THEN {} ELSE {what}
Bool(b) == IF b THEN "true" ELSE "false"

\* what a read must yield, or <<>> when it isn't told by Types.tla
Told(ev, o) ==
  CASE o[1] = "eq" /\ o[2] <= Len(ev.vs) /\ o[3] <= Len(ev.vs) -> <<Bool(Eq(ev.vs[o[2]], ev.vs[o[3]]))>>
    [] o[1] = "in" /\ o[2] <= Len(ev.vs) /\ o[3] <= Len(ev.ts) -> <<Bool(In(Env(ev), ev.vs[o[2]], ev.ts[o[3]]))>>
    [] OTHER -> <<>>
Wrong(ev) ==
  UNION {LET t == Told(ev, ev.ops[k]) IN
         W(t = <<>> \/ t[1] = ev.alone[k], <<"alone", ev.ops[k], t>>)
         \cup UNION {W(ev.seen[p][k] = ev.alone[k], <<"differs from what is yielded alone", p, ev.ops[k]>>) : p \in DOMAIN ev.seen}
         : k \in DOMAIN ev.ops}
  \cup W(ev.before = ev.after, <<"what is frozen has changed">>)

Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.op = "reset" THEN TRUE
     ELSE IF ev.op = "panic" THEN PrintT(<<"REJECT", l, "unexpected panic">>)
     ELSE LET w == Wrong(ev) IN w # {} => PrintT(<<"REJECT", l, w>>)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
