----------------------------- MODULE PcoreTrace -----------------------------
(***************************************************************************)
(* Judges recordings of what the pcore parser makes of texts (P25). Each   *)
(* line stands on its own.                                                 *)
(***************************************************************************)
EXTENDS Pcore, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

W(p, what) == IF p THEN {} ELSE {what}

\* An error tells where it is: at or after where the token that isn't acceptable starts (or for one that can't be read, at or
\* after the token before it) and not after the end of the token that follows.
RightPlace(d, s, e) ==
  /\ e.pos /\ e.line >= 1 /\ e.col >= 1
  /\ ~d.r.sem =>
       LET i == Min2(d.r.i, Len(d.T))
           from == Pos(s, IF d.T[i].k # "err" THEN d.T[i].p ELSE IF i = 1 THEN 1 ELSE d.T[i - 1].p)
           to == Pos(s, d.T[Min2(i + 1, Len(d.T))].q)
       IN  (d.early \/ NotAfter(from, <<e.line, e.col>>)) /\ NotAfter(<<e.line, e.col>>, to)

Wrong(ev) ==
  IF "bad" \in DOMAIN ev THEN \* not well formed UTF-8
    W(~ev.ok, <<"accepted">>) \cup (IF ev.ok THEN {} ELSE W(ev.err.pos /\ ~ev.err.crash, <<"not a proper error">>))
  ELSE
  LET d == PDenotes(ev, ev.s) IN
  IF d.r.ok THEN
    IF ev.ok THEN W(d.loose \/ AlikeT(d.r.t, ev.val), <<"means", d.r.t>>)
    ELSE W(d.loose /\ ~ev.err.crash, <<"refused", d.r.t>>)
  ELSE IF ev.ok THEN {<<"accepted", d.r.i>>}
  ELSE W(~ev.err.crash, <<"not a proper error">>) \cup W(RightPlace(d, ev.s, ev.err), <<"position", d.r.i, d.r.sem>>)

Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.op = "reset" THEN TRUE
     ELSE IF ev.op = "panic" THEN PrintT(<<"REJECT", l, "unexpected panic">>)
     ELSE LET w == Wrong(ev) IN w # {} => PrintT(<<"REJECT", l, w>>)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
