---------------------------- MODULE BinaryTrace ----------------------------
(***************************************************************************)
(* Validates a trace of calls on real binaries and assignments to go       *)
(* slices against the machine of Binary. The memory isn't observed, so the *)
(* state of the machine is kept and what can be observed is compared.      *)
(***************************************************************************)
EXTENDS Binary, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l, bad
vars == <<S, l, bad>>

Init == S = Start /\ l = 1 /\ bad = FALSE
W(p, what) == IF p THEN {} ELSE {what}

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.op = "reset" THEN S' = Start /\ bad' = FALSE
     ELSE IF bad THEN UNCHANGED <<S, bad>>
     ELSE IF ev.op = "panic" THEN S' = S /\ bad' = TRUE /\ PrintT(<<"REJECT", l, "unexpected panic">>)
     ELSE LET x == Step(S, ev)
              w == W(x.r = ev.r \/ x.r = <<"any">>, <<"result", x.r>>)
                   \cup W(Project(x.s) = ev.h, <<"contents", Project(x.s)>>)
                   \cup W(Immutable(Project(S), ev.h), <<"frozen binary changed">>)
          IN /\ S' = x.s
             /\ bad' = (w # {})
             /\ w # {} => PrintT(<<"REJECT", l, w>>)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
