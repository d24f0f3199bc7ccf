----------------------------- MODULE LoaderFree -----------------------------
(***************************************************************************)
(* Validates histories of processes that load from real loaders in         *)
(* parallel. An event is the start or end of a call, or of a finder or a   *)
(* creator. The atomic steps between them are not seen, so TLC searches    *)
(* for an order of them that explains all events.                          *)
(***************************************************************************)
EXTENDS Loader, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l
vars == <<S, l>>

Init == S = Start(1, 1) /\ l = 1 /\ TLCSet(1, 1)
Procs == 1..Len(S.K)

\* an unseen step. When all that's left is a return it's taken when it's seen
Hidden ==
  /\ \E p \in Procs :
       /\ S.K[p] # <<>> /\ ~Blocked(S, p) /\ ~Finished(S, p) /\ ~AtEnd(S, p)
       /\ LET m == Micro(S, p) IN S' = m
  /\ UNCHANGED l

Observed ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.op = "reset" -> S' = Start(ev.h, ev.np)
       [] ev.op = "call" -> S.K[ev.p] = <<>> /\ S' = Begin(S, ev.p, ev.o)
       [] ev.op = "gate" -> Blocked(S, ev.p) /\ Top(S.K[ev.p]) = ev.g /\ S' = Leave(S, ev.p)
       [] ev.op = "end" -> AtEnd(S, ev.p) /\ S' = End(S, ev.p)
       [] ev.op = "done" -> Finished(S, ev.p) /\ Top(S.K[ev.p])[2] = ev.out /\ S' = [S EXCEPT !.K[ev.p] = <<>>]
       [] OTHER -> (\A p \in Procs : S.K[p] = <<>>) /\ Project(S) = ev.h /\ S' = S
  /\ IF TLCGet(1) < l + 1 THEN TLCSet(1, l + 1) ELSE TRUE
Next == (l <= Len(Trace) /\ Hidden) \/ Observed
Spec == Init /\ [][Next]_vars
Accepted == LET n == TLCGet(1) IN n = Len(Trace) + 1 \/ PrintT(<<"REJECT", n, "no order of the steps of the calls explains the event">>)
=============================================================================
