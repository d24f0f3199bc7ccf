------------------------------- MODULE CostTrace -----------------------------
\* Histories of operations on collections and what each of them has allocated, recorded from the code (P24)
EXTENDS Cost, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<l, len, room>>

Init == l = 1 /\ len = <<>> /\ room = <<>>
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.op = "reset" THEN len' = <<>> /\ room' = <<>>
     ELSE IF ev.op = "panic" THEN PrintT(<<"REJECT", l, "unexpected panic">>) /\ UNCHANGED <<len, room>>
     ELSE /\ Op(ev.of, ev.at, ev.lens)
          /\ LET made == IF ev.at = 0 THEN Sum(ev.lens, ev.of) ELSE ev.lens[ev.at]
                 may == Allowed(ev.of, made)
             IN ev.bytes > may => PrintT(<<"REJECT", l, {<<"allocates", ev.bytes, "instead of at most", may>>}>>)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
