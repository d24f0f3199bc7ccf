----------------------------- MODULE AliasTrace -----------------------------
(***************************************************************************)
(* Validates a trace of processes that add aliases. The driver decides     *)
(* which process runs and stops each at the gates of its script, so that   *)
(* each event is one deterministic step. An event has what came of the     *)
(* step (out), the map that each variable holds (V), and a description of  *)
(* the map that the step created, if it created one (new).                 *)
(***************************************************************************)
EXTENDS Alias, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l, bad, vs
vars == <<S, l, bad, vs>>

Init == S = Start(1, 1) /\ l = 1 /\ bad = FALSE /\ vs = <<>>
W(p, what) == IF p THEN {} ELSE {what}
Set(s) == {s[i] : i \in 1..Len(s)}

\* what is said about a map agrees with the map
MapOk(T, m, d) ==
  W(Set(d.entries) = Set(T.M[m]), <<"entries", T.M[m]>>)
  \cup UNION {W(NameOk(T, m, d.names[i][1], d.names[i][2]), <<"name", d.names[i]>>) : i \in 1..Len(d.names)}
  \cup UNION {UNION {W(d.inst[i][2][k] = In([asg |-> {}, dgo |-> {}, ali |-> T.G], vs[k], <<"ref", d.inst[i][1]>>),
                       <<"instance", d.inst[i][1], k>>) : k \in 1..Len(vs)} : i \in 1..Len(d.inst)}

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.op = "reset" THEN S' = Start(ev.np, ev.nv) /\ bad' = FALSE /\ vs' = ev.vs
     ELSE IF bad THEN UNCHANGED <<S, bad, vs>>
     ELSE IF ev.op = "panic" THEN UNCHANGED <<S, vs>> /\ bad' = TRUE /\ PrintT(<<"REJECT", l, "unexpected panic">>)
     ELSE LET x == IF ev.op = "call" THEN Call(S, ev.p, ev.o) ELSE Resume(S, ev.p)
              T == x[2]
              m == Len(T.M)
              w == W(x[1] = ev.out, <<"outcome", x[1]>>)
                   \cup W(T.V = ev.V, <<"variables", T.V>>)
                   \cup W(Len(ev.new) = m - Len(S.M), <<"number of maps", m>>)
                   \cup W(Retained(S, T), <<"Retained">>)
                   \cup W(Resolved(T), <<"Resolved">>)
                   \cup (IF Len(ev.new) = 1 /\ m > Len(S.M) THEN MapOk(T, m, ev.new[1]) ELSE {})
                   \cup (IF Len(ev.old) = 1 THEN MapOk(T, ev.old[1].m, ev.old[1]) ELSE {})
          IN /\ S' = T
             /\ UNCHANGED vs
             /\ bad' = (w # {})
             /\ w # {} => PrintT(<<"REJECT", l, w>>)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
