---------------------------- MODULE GoStructTrace ----------------------------
\* Operations on wrapped go structs that were recorded from the code (P16): the outcome of each, and all that can be seen after it
EXTENDS GoStruct, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, ok

Init == l = 1 /\ s = S0 /\ ok = TRUE
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.op = "reset" THEN s' = S0 /\ ok' = TRUE
     ELSE IF ~ok THEN UNCHANGED <<s, ok>>
     ELSE IF ev.op = "panic" THEN PrintT(<<"REJECT", l, "unexpected panic">>) /\ s' = s /\ ok' = FALSE
     ELSE LET d == Do(s, ev)
              w == (IF d.r = ev.r THEN {} ELSE {<<"outcome", ev.op, d.r>>}) \cup (IF Seen(d.s) = ev.seen THEN {} ELSE {<<"state", ev.op, Seen(d.s)>>}) IN
          s' = d.s /\ ok' = (w = {}) /\ (w # {} => PrintT(<<"REJECT", l, w>>))
Spec == Init /\ [][Next]_<<l, s, ok>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
