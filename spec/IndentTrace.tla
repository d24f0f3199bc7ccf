---------------------------- MODULE IndentTrace ----------------------------
(***************************************************************************)
(* Validates traces of calls on real indenters and string readers.         *)
(***************************************************************************)
EXTENDS Indent, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l, bad
vars == <<S, l, bad>>

Init == S = Start(<<>>, FALSE) /\ l = 1 /\ bad = FALSE
W(p, what) == IF p THEN {} ELSE {what}

\* calls of a reader one after another
RECURSIVE Reads(_, _, _)
Reads(ev, i, p) ==
  IF i > Len(ev.calls) THEN {}
  ELSE LET c == ev.calls[i]
           x == Read(ev.t, p, c[1])
           q == x.p
       IN W(x.r = c[2], <<"read", i, c[1], x.r>>)
          \* the end is a position too. What it is after the end has been read isn't decided
          \cup (IF q > Len(ev.t) THEN {}
                ELSE W(c[3] = SizeTo(ev.t, q), <<"position", i, SizeTo(ev.t, q)>>)
                     \cup W(c[4] = LineAt(ev.t, q), <<"line", i, LineAt(ev.t, q)>>)
                     \cup W(c[5] = ColumnAt(ev.t, q), <<"column", i, ColumnAt(ev.t, q)>>))
          \cup Reads(ev, i + 1, q)

Whole(ev) ==
  W(ev.r[1] = NodeText(ev.g, ev.n, ev.self, <<>>, 0, {}), <<"text">>)
  \cup W(ev.r[2] = NodeText(ev.g, ev.n, ev.self, <<32, 32>>, 0, {}), <<"indented text">>)

Call(ev, S2) ==
  W(ev.text = Text(S2.buf), <<"text", Text(S2.buf)>>)
  \cup W(ev.again = ev.text, <<"text the second time", ev.again>>)
  \* blanks at the end of lines may have been removed
  \cup W(Len(Text(S2.buf)) <= ev.len /\ ev.len <= Len(S2.buf), <<"length", Len(S2.buf)>>)
  \cup W(ev.levels = S2.lv, <<"levels", S2.lv>>)
  \cup W(\A i \in 1..Len(ev.indenting) : ev.indenting[i] = (S2.ind # <<>>), <<"indenting">>)
  \cup W(ev.written = -1 \/ ev.written = Len(ev.s), <<"written", Len(ev.s)>>)

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.op = "reset" THEN S' = Start(ev.ind, ev.erp) /\ bad' = FALSE
     ELSE IF bad THEN UNCHANGED <<S, bad>>
     ELSE IF ev.op = "panic" THEN S' = S /\ bad' = TRUE /\ PrintT(<<"REJECT", l, "unexpected panic">>)
     ELSE LET S2 == IF ev.op \in {"read", "whole"} THEN S ELSE Step(S, ev)
              w == IF ev.op = "read" THEN Reads(ev, 1, 0) ELSE IF ev.op = "whole" THEN Whole(ev) ELSE Call(ev, S2)
          IN /\ S' = S2
             /\ bad' = (w # {})
             /\ w # {} => PrintT(<<"REJECT", l, w>>)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
