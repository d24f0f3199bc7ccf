---------------------------- MODULE LoaderTrace ----------------------------
(***************************************************************************)
(* Validates a trace of processes that load from real loaders. The driver  *)
(* decides which process runs and stops each at every finder and creator,  *)
(* so that each event is one deterministic step. An event has what came of *)
(* the step (out) and a projection of all loaders (h).                     *)
(***************************************************************************)
EXTENDS Loader, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l, bad
vars == <<S, l, bad>>

Init == S = Start(1, 1) /\ l = 1 /\ bad = FALSE
W(p, what) == IF p THEN {} ELSE {what}

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.op = "reset" THEN S' = Start(ev.h, ev.np) /\ bad' = FALSE
     ELSE IF bad THEN UNCHANGED <<S, bad>>
     ELSE IF ev.op = "panic" THEN S' = S /\ bad' = TRUE /\ PrintT(<<"REJECT", l, "unexpected panic">>)
     ELSE LET x == IF ev.op = "call" THEN Call(S, ev.p, ev.o) ELSE Resume(S, ev.p)
              w == W(x[1] = ev.out, <<"outcome", x[1]>>)
                   \cup W(Project(x[2]) = ev.h, <<"loaders", Project(x[2])>>)
                   \cup W(Stable(S.L, ev.h), <<"Stable">>)
                   \cup W(Unique(ev.h), <<"Unique">>)
          IN /\ S' = x[2]
             /\ bad' = (w # {})
             /\ w # {} => PrintT(<<"REJECT", l, w>>)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
