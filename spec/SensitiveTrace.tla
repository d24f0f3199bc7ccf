---------------------------- MODULE SensitiveTrace ---------------------------
(***************************************************************************)
(* Sensitive values (P17). What is told about a value (ev.said: string     *)
(* forms, texts of its type, of errors, of reports) may depend only on     *)
(* what isn't wrapped by a sensitive, and on the kinds of what is: two     *)
(* values that have the same Face are told about in the same words.        *)
(* Each line stands on its own.                                            *)
(***************************************************************************)
EXTENDS Types, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
W(p, what) == IF p THEN {} ELSE {what}

\* what the type of a wrapped value tells: kinds, not content
RECURSIVE Kind(_)
Kind(v) ==
  CASE v[1] = "arr" -> <<"arr", {Kind(v[2][i]) : i \in DOMAIN v[2]}>>
    [] v[1] = "map" -> <<"map", {Kind(v[2][i][1]) : i \in DOMAIN v[2]}, {Kind(v[2][i][2]) : i \in DOMAIN v[2]}>>
    [] v[1] = "sens" -> <<"sens", Kind(v[2])>>
    [] v[1] = "t" -> v
    [] OTHER -> <<v[1]>>
RECURSIVE Face(_)
Face(v) ==
  CASE v[1] = "arr" -> <<"arr", [i \in DOMAIN v[2] |-> Face(v[2][i])]>>
    [] v[1] = "map" -> <<"map", [i \in DOMAIN v[2] |-> <<Face(v[2][i][1]), Face(v[2][i][2])>>]>>
    [] v[1] = "sens" -> <<"sens", Kind(v[2])>>
    [] OTHER -> v

Said(ev) ==
  LET n == Len(ev.vs) IN
  UNION {UNION {IF Face(ev.vs[i]) # Face(ev.vs[j]) THEN {}
                ELSE UNION {W(ev.said[i][k] = ev.said[j][k], <<"revealed", i, j, k>>) : k \in DOMAIN ev.said[i]}
                : j \in (i + 1)..n} : i \in 1..n}

\* what can't be changed
RECURSIVE Fixed(_)
Fixed(v) == IF v[1] = "sens" THEN Fixed(v[2]) ELSE v[1] \notin {"arr", "map", "bin"}

\* a sensitive and what it wraps: s, the same with equal content e, with other content o
Wrapping(ev) ==
  LET s == <<"sens", ev.v>> IN
  W(Eq(ev.unwrap, ev.v), <<"unwraps something else">>)
  \cup W(ev.same, <<"unwraps a copy">>)
  \cup W(~ev.eqbare, <<"equals what it wraps">>)
  \cup W(ev.eqsame = Eq(ev.v, ev.v), <<"doesn't equal its equal">>)
  \cup W(ev.eqother = Eq(ev.v, ev.o), <<"equality differs from that of what it wraps">>)
  \cup W(Eq(ev.v, ev.o) => ev.hash[1] = ev.hash[2], <<"hash">>)
  \cup W(ev.frozen = ev.wfrozen, <<"is frozen when what it wraps isn't, or the opposite">>)
  \cup W(Eq(ev.fcopy, s) /\ ev.fcopyfrozen, <<"frozen copy">>)
  \cup W(Eq(ev.tcopy, s) /\ ev.tcopyfrozen = Fixed(ev.v), <<"thawed copy">>)
  \cup W(Eq(ev.after, s), <<"changes with a copy">>)
  \cup W(ev.frozen2 /\ ev.wfrozen2, <<"freeze">>)

Wrong(ev) ==
  CASE ev.op = "said" -> Said(ev)
    [] ev.op = "wrap" -> Wrapping(ev)
    [] OTHER -> {<<"unexpected event">>}

Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.op = "reset" THEN TRUE
     ELSE IF ev.op = "panic" THEN PrintT(<<"REJECT", l, "unexpected panic">>)
     ELSE LET w == Wrong(ev) IN w # {} => PrintT(<<"REJECT", l, w>>)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
