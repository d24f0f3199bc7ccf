-------------------------------- MODULE GoTrace ------------------------------
\* Conversions between go values and dgo values that were recorded from the code (P16). Each line stands on its own.
EXTENDS GoValues, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
W(p, what) == IF p THEN {} ELSE {what}

There(ev) ==
  LET v == Image(ev.gt, ev.gv) IN
  UNION {W(IF v[1] = "no" THEN ev.made[i][1] = "no" ELSE IF i = 3 /\ HasNative(v) THEN TRUE ELSE ev.made[i][1] = "ok" /\ Is(v, ev.made[i][2]), <<"becomes something else", i>>)
         : i \in DOMAIN ev.made}
  \cup LET ok == SelectSeq(ev.made, LAMBDA m : m[1] = "ok") IN UNION {W(HasNative(v) \/ ev.later[i] = ok[i][2], <<"changes later", i>>) : i \in DOMAIN ok}
  \cup W(v[1] = "no" \/ To(ev.gt, v)[1] = "?" \/ (ev.back[1] = "ok" /\ SameGo(ev.gt, ev.gv, ev.back[2])), <<"comes back as something else">>)

Into(ev) ==
  LET r == To(ev.gt, ev.v) IN
  \* what the go program does with what it got does not change the value
  W(ev.after = ev.v, <<"has been changed", ev.after>>) \cup
  CASE r[1] = "no" -> W(ev.got[1] = "no", <<"isn't refused">>)
    [] r[1] = "?" \/ RoundKeys(ev.v) -> {}
    [] OTHER -> W((ev.got[1] = "ok" /\ SameGo(ev.gt, r[2], ev.got[2])) \/ (Rounds(ev.v) /\ ev.got[1] = "no"), <<"becomes", r>>)

Wrong(ev) ==
  CASE ev.op = "there" -> There(ev)
    [] ev.op = "into" -> Into(ev)
    [] OTHER -> {<<"unexpected event">>}

Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.op = "reset" THEN TRUE
     ELSE IF ev.op = "panic" THEN PrintT(<<"REJECT", l, "unexpected panic">>)
     ELSE LET w == Wrong(ev) IN w # {} => PrintT(<<"REJECT", l, w>>)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
