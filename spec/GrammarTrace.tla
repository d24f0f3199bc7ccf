---------------------------- MODULE GrammarTrace ----------------------------
(***************************************************************************)
(* Judges recordings of what the parser makes of texts (P11) and of types  *)
(* that were printed and parsed again (P10). Each line stands on its own.  *)
(***************************************************************************)
EXTENDS Grammar, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

W(p, what) == IF p THEN {} ELSE {what}
Has(ev, f) == f \in DOMAIN ev

\* the described thing, where what isn't a type is <<"val", value>>
RECURSIVE Alike(_, _)
RECURSIVE AlikeV(_, _)
AlikeV(v, w) ==
  IF v[1] # w[1] THEN FALSE
  ELSE IF v[1] = "sens" THEN AlikeV(v[2], w[2])
  ELSE IF v[1] = "t" THEN Alike(v[2], w[2])
  ELSE Eq(v, w)
Alike(a, b) ==
  IF a[1] = "val" \/ b[1] = "val" THEN a[1] = b[1] /\ AlikeV(a[2], b[2])
  ELSE LET x == Norm(a) y == Norm(b) IN IF x[1] = "x" /\ y[1] = "x" THEN Eq(x[2], y[2]) ELSE Same(x, y)

\* An error tells where it is. That is, for a token that isn't acceptable, at or after where that token starts (or for one
\* that can't be read, at or after the token before it) and not after the end of the token that follows.
RightPlace(d, s, e) ==
  /\ e.pos /\ e.line >= 1 /\ e.col >= 1
  /\ ~d.r.sem =>
       LET i == Min2(d.r.i, Len(d.T))
           from == Pos(s, IF d.T[i].k # "err" THEN d.T[i].p ELSE IF i = 1 THEN 1 ELSE d.T[i - 1].p)
           to == Pos(s, d.T[Min2(i + 1, Len(d.T))].q)
           \* a sensitive value may have been refused earlier on, because it is given by means of an alias that has no meaning
           early == \E k \in 1..(i - 1), m \in 1..(i - 1) : k < m /\ d.T[k].k = "id" /\ d.T[k].s = Keywords.sensitive /\ IsC(d.T, m, 61)
       IN  (early \/ NotAfter(from, <<e.line, e.col>>)) /\ NotAfter(<<e.line, e.col>>, to)

Parsed(ev) ==
  IF Has(ev, "bad") THEN \* not well formed UTF-8
    W(~ev.ok, <<"accepted">>) \cup (IF ev.ok THEN {} ELSE W(ev.err.pos /\ ~ev.err.crash, <<"not a proper error">>))
  ELSE
  LET d == Denotes(ev, ev.s) IN
  IF d.r.ok THEN
    LET loose == Mentions(d.r.t, "?") \/ (d.r.t[1] = "val" /\ Unknown(d.r.t[2])) IN
    IF ev.ok THEN W(loose \/ Alike(d.r.t, ev.val), <<"means", d.r.t>>)
    ELSE W(loose /\ ~ev.err.crash, <<"refused", d.r.t>>)
  ELSE IF ev.ok THEN {<<"accepted", d.r.i>>}
  ELSE W(~ev.err.crash, <<"not a proper error">>) \cup W(RightPlace(d, ev.s, ev.err), <<"position", d.r.i, d.r.sem>>)

\* Known findings of P10. A backslash and a control character in a pattern are escaped when the pattern is printed, the type of
\* types is printed as type[type] which denotes another type, and an exact type isn't accepted as the parameter of sensitive.
RECURSIVE Awkward(_)
AwkwardIn(ts) == UNION {Awkward(ts[i]) : i \in 1..Len(ts)}
Awkward(t) ==
  CASE t[1] = "rxp" -> IF \E i \in 1..Len(t[2]) : t[2][i] < 32 \/ t[2][i] = 92 \/ t[2][i] > 126 THEN {"escaped pattern"} ELSE {}
    [] t[1] = "metameta" -> {"type of type"}
    [] t[1] = "meta" -> Awkward(t[2])
    [] t[1] = "sens" -> IF t[2][1] \in {"x", "nil"} THEN {"sensitive of exact type"} ELSE Awkward(t[2])
    [] t[1] \in {"not", "arrz"} -> Awkward(t[2])
    [] t[1] \in {"tup", "all", "anyof", "one"} -> AwkwardIn(t[2])
    [] t[1] \in {"mapz", "func"} -> Awkward(t[2]) \cup Awkward(t[3])
    [] t[1] = "struct" -> UNION {Awkward(t[2][i][2]) : i \in 1..Len(t[2])}
    [] OTHER -> {}
Known(t, w) == IF w = {} THEN w ELSE LET a == Awkward(t) IN IF a = {} THEN w ELSE {<<CHOOSE x \in a : TRUE>>}

\* P10
Printed(ev) ==
  W(ev.ok, <<"what was printed is refused">>)
  \cup (IF ~ev.ok THEN {} ELSE
        W(ev.eq, <<"the parsed type is not equal">>)
        \cup W(ev.again, <<"the parsed type is printed differently">>)
        \cup W(ev.same, <<"the type is printed differently each time">>))
  \cup LET d == Denotes(ev, ev.s) IN
       W(d.r.ok, <<"what was printed is not in the language">>)
       \cup (IF d.r.ok THEN W(Mentions(d.r.t, "?") \/ Alike(AsType(d.r.t), ev.t), <<"means", d.r.t>>) ELSE {})

Wrong(ev) ==
  CASE ev.op = "parse" -> Parsed(ev)
    [] ev.op = "print" -> Known(ev.t, Printed(ev))
    [] OTHER -> {<<"unexpected event">>}

Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.op = "reset" THEN TRUE
     ELSE IF ev.op = "panic" THEN PrintT(<<"REJECT", l, "unexpected panic">>)
     ELSE LET w == Wrong(ev) IN w # {} => PrintT(<<"REJECT", l, w>>)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
