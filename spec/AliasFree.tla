------------------------------ MODULE AliasFree ------------------------------
(***************************************************************************)
(* Validates histories of processes that add and look up aliases in        *)
(* parallel. An event is the start or end of a call. The atomic steps      *)
(* between them (reading the map that the variable holds, replacing it,    *)
(* looking up) are not seen, so TLC searches for an order of them that     *)
(* explains all events.                                                    *)
(***************************************************************************)
EXTENDS Alias, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
\* P[p] is where a process is: <<>>, <<"call", o>>, <<"ran">>, <<"read", o, map>>, or <<"end", result>>
VARIABLES S, P, l
vars == <<S, P, l>>

Init == S = Start(1, 1) /\ P = <<<<>>>> /\ l = 1 /\ TLCSet(1, 1)
Set(s) == {s[i] : i \in 1..Len(s)}

\* Unseen steps are taken as late as possible: when the end of a call is seen and the call hasn't got there yet.
\* (a step and an event of another process can be swapped)
Hidden ==
  /\ UNCHANGED l
  /\ Trace[l].op = "done" /\ P[Trace[l].p] # <<>> /\ P[Trace[l].p][1] \in {"call", "ran"}
  /\ \E p \in 1..Len(P) :
       \/ /\ P[p] # <<>> /\ P[p][1] = "call" /\ "script" \in DOMAIN P[p][2]
          /\ LET B == Begin(S, p, [P[p][2] EXCEPT !.script = SelectSeq(@, LAMBDA o : o.op # "gate")])
                 x == Script(B, B.K[p])
             IN IF x[3] = "end"
                THEN S' = [x[1] EXCEPT !.K[p] = x[2]] /\ P' = [P EXCEPT ![p] = IF x[2].own = <<>> THEN <<"end", <<"done", x[2].obs>>>> ELSE <<"ran">>]
                ELSE S' = S /\ P' = [P EXCEPT ![p] = <<"end", <<"panic", x[3]>>>>]
       \/ /\ P[p] # <<>> /\ P[p][1] = "ran"
          /\ LET f == Finish(S, p) IN
             S' = f[1] /\ P' = [P EXCEPT ![p] = <<"end", IF f[2][1] = "done" THEN SubSeq(f[2], 1, 2) ELSE f[2]>>]
       \/ /\ P[p] # <<>> /\ P[p][1] = "call" /\ "script" \notin DOMAIN P[p][2]
          /\ S' = S
          /\ P' = [P EXCEPT ![p] = <<"read", P[p][2], S.V[P[p][2].i]>>]

Answer(x, out) ==
  IF x[1] = "end" THEN x[2] = out
  ELSE x[1] = "read" /\ IF x[2].op = "get" THEN out = <<"done", Lookup(S.M[x[3]], x[2].name, 0)>>
                        ELSE out[1] = "done" /\ NameOk(S, x[3], x[2].v, out[2])

\* what the variables hold in the end
Ended(ev) ==
  /\ \A p \in 1..Len(P) : P[p] = <<>>
  /\ \A i \in 1..Len(S.V) : Set(S.M[S.V[i]]) = Set(ev.V[i].entries)
  /\ \A i \in 1..Len(S.V) : \A k \in 1..Len(ev.V[i].names) : NameOk(S, S.V[i], ev.V[i].names[k][1], ev.V[i].names[k][2])

\* (= TRUE, because TLC would otherwise take the alternatives of a disjunction for different steps)
Observed ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     CASE ev.op = "reset" -> S' = Start(ev.np, ev.nv) /\ P' = [p \in 1..ev.np |-> <<>>]
       [] ev.op = "call" -> P[ev.p] = <<>> /\ S' = S /\ P' = [P EXCEPT ![ev.p] = <<"call", ev.o>>]
       [] ev.op = "done" -> P[ev.p] # <<>> /\ Answer(P[ev.p], ev.out) = TRUE /\ S' = S /\ P' = [P EXCEPT ![ev.p] = <<>>]
       [] OTHER -> /\ Ended(ev) = TRUE
                   /\ UNCHANGED <<S, P>>
  /\ IF TLCGet(1) < l + 1 THEN TLCSet(1, l + 1) ELSE TRUE
Next == (l <= Len(Trace) /\ Hidden) \/ Observed
Spec == Init /\ [][Next]_vars
Accepted == LET n == TLCGet(1) IN n = Len(Trace) + 1 \/ PrintT(<<"REJECT", n, "no order of the steps of the calls explains the event">>)
=============================================================================
