---------------------------- MODULE StreamTrace ----------------------------
(***************************************************************************)
(* Judges recordings of streams (P13) and of JSON (P12). Each line stands  *)
(* on its own.                                                             *)
(***************************************************************************)
EXTENDS Stream, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Elems(q) == {q[i] : i \in 1..Len(q)}
Known(ev) == [types |-> Elems(ev.types), times |-> Elems(ev.times), named |-> Elems(ev.named)]
NoLen(E) == [n \in 1..Len(E) |-> [E[n] EXCEPT !.len = 0]]

\* g is what was streamed and cfg how. The text is what became of it in JSON.
JsonOf(ev, g, D, shared, cfg) ==
  LET t == Says(ev.text, ev.nums, D.ref) IN
  IF t[1] = 0 THEN {"not JSON"}
  ELSE W(t[1] = Len(ev.text) + 1, "more than one JSON value") \cup
       LET B == Build(t[2]) IN
       IF ~B.ok THEN {"meaningless JSON"}
       ELSE LET M == Meaning(B.E, D, Known(ev)) IN
            W(SameForm(Form(g, shared), Form(M, shared)), "JSON that means something else")
            \cup (Rules([n \in 1..Len(B.E) |-> [B.E[n] EXCEPT !.len = IF @ = 0 /\ B.E[n].k = "map" THEN Len(B.E[n].cs) \div 2
                                                                       ELSE Len(B.E[n].cs)]], cfg, D))
            \cup Once(g, M, cfg)
            \cup W(ev.back # <<>> /\ SameForm(Form(g, shared), Form(ev.back, shared)), "doesn't survive JSON")

Streamed(ev) ==
  LET D == Dialects[ev.dialect]
      g == Possible(ev.g)
      shared == ev.cfg.level > 0
  IN
  IF Refused(g, ev.cfg) THEN W(~ev.ok, "not refused")
  ELSE IF ~ev.ok THEN {"refused"}
  ELSE
  LET B == Build(ev.events) IN
  IF ~B.ok THEN {<<"meaningless event", B.at>>}
  ELSE
  LET M == Meaning(B.E, D, Known(ev))
      form == Form(g, shared)
  IN
  W(SameForm(form, Form(M, shared)), "events mean something else")
  \cup Rules(B.E, ev.cfg, D)
  \cup Once(g, M, ev.cfg)
  \cup Aliases(B.E, D, Known(ev), ev.aliases)
  \cup (CASE ev.kind \in {"basic", "data"} -> W(Form(RawGraph(B.E), shared) = Form(ev.res, shared), "collected wrongly")
          [] ev.kind = "decoder" ->
               W(SameForm(form, Form(ev.res, shared)), "decoded wrongly")
               \cup W(\A i \in 1..Len(ev.aliases) :
                        (\E n \in Reach(g, FALSE) : g[n] = <<"t", ev.aliases[i][2]>>) => ev.aliases[i] \in Elems(ev.after), "name lost")
          [] ev.kind = "json" ->
               LET t == Says(ev.text, ev.nums, D.ref) IN
               W(t[1] # 0 /\ NoLen(Build(t[2]).E) = NoLen(B.E), "JSON differs from the events") \cup JsonOf(ev, g, D, shared, ev.cfg)
          [] OTHER -> {})

\* What stands between two keys that are the same is replaced
RECURSIVE NoDup(_, _, _)
NoDup(G, cs, i) ==
  IF i > Len(cs) THEN cs
  ELSE LET js == {j \in 1..(i - 1) : Odd(j) /\ G[cs[j]] = G[cs[i]]} IN
       IF js = {} THEN NoDup(G, cs, i + 2)
       ELSE LET j == CHOOSE j \in js : TRUE IN
            NoDup(G, SubSeq([cs EXCEPT ![j + 1] = cs[i + 1]], 1, i - 1) \o SubSeq(cs, i + 2, Len(cs)), i)
Unambiguous(G) == [n \in 1..Len(G) |-> IF G[n][1] = "map" THEN <<"map", NoDup(G, G[n][2], 1)>> ELSE G[n]]

Unmarshalled(ev) ==
  LET D == Dialects[ev.dialect]
      t == Says(ev.text, ev.nums, D.ref)
  IN
  IF t[1] = 0 THEN W(~ev.ok, "accepted what isn't JSON")
  ELSE LET B == Build(t[2]) IN
       IF ~B.ok THEN W(~ev.ok, "accepted a bad reference")
       ELSE LET M == Unambiguous(Meaning(B.E, D, Known(ev)))
                loose == \E n \in 1..Len(M) :
                           \/ M[n] = <<"?">>
                           \/ M[n][1] = "map" /\ \E i \in 1..Len(M[n][2]) : Odd(i) /\ M[M[n][2][i]][1] # "leaf"
            IN  IF loose \/ Blank(ev.text, t[1]) <= Len(ev.text) THEN {}
                ELSE IF ~ev.ok THEN {"refused"}
                ELSE W(SameForm(Form(M, TRUE), Form(ev.res, TRUE)), "unmarshalled wrongly")

Wrong(ev) ==
  CASE ev.op = "stream" -> Streamed(ev)
    [] ev.op = "marshal" ->
         IF Refused(ev.g, ev.cfg) THEN W(~ev.ok, "not refused")
         ELSE IF ~ev.ok THEN {"refused"}
         ELSE JsonOf(ev, Possible(ev.g), Dialects[ev.dialect], TRUE, ev.cfg)
    [] ev.op = "unmarshal" -> Unmarshalled(ev)
    [] OTHER -> {<<"unexpected event">>}

Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.op = "reset" THEN TRUE
     ELSE IF ev.op = "panic" THEN PrintT(<<"REJECT", l, "unexpected panic">>)
     ELSE LET w == Wrong(ev) IN w # {} => PrintT(<<"REJECT", l, w>>)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
