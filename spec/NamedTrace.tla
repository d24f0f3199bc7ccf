----------------------------- MODULE NamedTrace -----------------------------
(***************************************************************************)
(* Validates a trace of operations on real named types. Operations of a    *)
(* race have all taken place at the same time, so that any order of them   *)
(* that explains what came of them will do.                                *)
(***************************************************************************)
EXTENDS Named, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, l, bad
vars == <<S, l, bad>>

W(p, what) == IF p THEN {} ELSE {what}

\* What's assignable to a negation of what is stated with logical operators isn't always sound, and is a subject of P08
RECURSIVE Has(_, _)
Has(ks, t) == t[1] \in ks \/ (t[1] \in {"not", "list", "meta"} /\ Has(ks, t[2]))
              \/ (t[1] \in {"anyof", "all", "one", "tup"} /\ \E i \in 1..Len(t[2]) : Has(ks, t[2][i]))
Sound(t, u) == ~(Has({"not"}, t) /\ Has(Logical, u))

\* The result of a step is <<what is wrong, the new state>>
Rel(ev) ==
  LET D == S.D
      ts == ev.ts
      vs == ev.vs
      nt == 1..Len(ts)
      nv == 1..Len(vs)
      \* definitions that have been replaced may differ from those that have the name now
      RECURSIVE Defs(_)
      Defs(x) == CASE x[1] = "nv" -> {x[2]} \cup Defs(x[4])
                   [] x[1] \in {"named", "par"} -> {x[2]}
                   [] x[1] \in {"exact", "not", "list", "meta", "x", "t"} -> Defs(x[2])
                   [] x[1] \in {"anyof", "all", "one", "tup", "arr"} -> UNION {Defs(x[2][i]) : i \in 1..Len(x[2])}
                   [] x[1] = "map" -> UNION {Defs(x[2][i][1]) \cup Defs(x[2][i][2]) : i \in 1..Len(x[2])}
                   [] OTHER -> {}
      all == UNION {Defs(ts[i]) : i \in nt} \cup UNION {Defs(vs[i]) : i \in nv}
      consistent == \A i, j \in all : D[i].name = D[j].name => i = j
      fam(i) == ts[i][1] \in {"named", "par", "exact"}
  IN  UNION {W(DecidedL(ts[i]) /\ Decided(ts[j]) => ev.asg[i][j] = Asg(D, ts[i], ts[j]), <<"Assignable", i, j>>) : i \in nt, j \in nt}
      \cup UNION {W(ev.inst[i][k] = In(D, ts[i], vs[k]) \/ ts[i][1] = "meta", <<"Instance", i, k>>) : i \in nt, k \in nv}
      \cup UNION {W(consistent /\ Sound(ts[i], ts[j]) /\ ev.asg[i][j] /\ ev.inst[j][k] => ev.inst[i][k], <<"unsound", i, j, k>>) : i \in nt, j \in nt, k \in nv}
      \cup UNION {W(consistent => ev.asg[i][i], <<"not reflexive", i>>) : i \in nt}
      \cup UNION {W(fam(i) /\ fam(j) => ev.eq[i][j] = EqT(D, ts[i], ts[j]), <<"Equals", i, j>>) : i \in nt, j \in nt}
      \cup UNION {W(ev.eq[i][j] => ev.hash[i][j], <<"hash", i, j>>) : i \in nt, j \in nt}
      \cup UNION {W(ev.eq[i][j] = ev.eq[j][i], <<"not symmetric", i, j>>) : i \in nt, j \in nt}
      \cup UNION {W(ev.meta[i][j] = ev.asg[i][j], <<"meta", i, j>>) : i \in nt, j \in nt}
      \cup UNION {W(ev.veq[i][j] = EqN(D, vs[i], vs[j]), <<"value Equals", i, j>>) : i \in nv, j \in nv}
      \cup UNION {W(ev.veq[i][j] => ev.vhash[i][j], <<"value hash", i, j>>) : i \in nv, j \in nv}
      \cup UNION {W(ev.vasg[i][k] => ev.inst[i][k] \/ ts[i][1] = "meta", <<"value type unsound", i, k>>) : i \in nt, k \in nv}
      \cup UNION {W(DecidedL(ts[i]) /\ vs[k][1] = "nv" => ev.vasg[i][k] = ev.inst[i][k], <<"value type", i, k>>) : i \in nt, k \in nv}
      \cup UNION {W(fam(i) => EqT(D, ev.gen[i], Generic(ts[i])) /\ ev.names[i] = D[DefOf(ts[i])].name, <<"Generic", i>>) : i \in nt}
      \cup UNION {W(vs[k][1] = "nv" => ev.vtypes[k] = TypeOf(vs[k]), <<"Type", k>>) : k \in nv}

Same(D, got, r) == IF r[1] = "ok" THEN got[1] = "ok" /\ EqN(D, r[2], got[2]) ELSE got = Refused
\* did what was made turn out to be what is made now?
SameT(D, got, r) == IF r[1] = "ok" THEN got[1] = "ok" /\ EqT(D, r[2], got[2]) ELSE got = Refused

\* is there a type in v that has a name that isn't registered?
RECURSIVE Unknown(_, _)
Unknown(st, v) ==
  CASE v[1] \in {"arr", "anyof", "all", "one", "tup"} -> \E i \in 1..Len(v[2]) : Unknown(st, v[2][i])
    [] v[1] = "map" -> \E i \in 1..Len(v[2]) : Unknown(st, v[2][i][1]) \/ Unknown(st, v[2][i][2])
    [] v[1] = "nv" -> Unknown(st, v[4])
    [] v[1] \in {"exact", "not", "list", "meta", "t"} -> Unknown(st, v[2])
    [] v[1] = "named" -> st.reg[st.D[v[2]].name] = 0
    [] OTHER -> FALSE

\* the orders of the operations of a race
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : p[i] = p[j] => i = j}
\* the registry after the first k operations of an order, and whether they did what was seen
RECURSIVE After(_, _, _, _)
After(reg, ops, p, k) ==
  IF k > Len(ops) THEN <<TRUE, reg>>
  ELSE LET o == ops[p[k]] IN
       CASE o.op = "register" ->
              IF reg[o.name] = 0 THEN (IF o.got = 1 THEN After([reg EXCEPT ![o.name] = o.sn], ops, p, k + 1) ELSE <<FALSE, reg>>)
              ELSE IF o.got = 0 THEN After(reg, ops, p, k + 1) ELSE <<FALSE, reg>>
         [] o.op = "lookup" -> IF reg[o.name] = o.got THEN After(reg, ops, p, k + 1) ELSE <<FALSE, reg>>
         [] OTHER -> After([reg EXCEPT ![o.name] = 0], ops, p, k + 1)

Step(ev) ==
  CASE ev.op = "register" -> LET r == Register(S, ev.def) IN <<W(ev.ok = r[1], <<"registered">>), r[2]>>
    [] ev.op = "remove" -> <<{}, Remove(S, ev.name)>>
    [] ev.op = "lookup" -> <<W(ev.got = Lookup(S, ev.name), <<"looked up", S.reg[ev.name]>>)
                             \cup W(ev.parsed = Lookup(S, ev.name), <<"parsed", S.reg[ev.name]>>), S>>
    [] ev.op = "reflected" -> LET c == OfImpl(S, ev.impl) IN <<W(IF c = {} THEN ev.got = 0 ELSE ev.got \in c, <<"reflected", c>>), S>>
    [] ev.op = "rel" -> <<Rel(ev), S>>
    [] ev.op = "new" -> LET r == New(S.D, ev.t, ev.arg) IN
                        <<W(Same(S.D, ev.got, r), <<"New", r>>) \cup W(Same(S.D, ev.vf, r), <<"vf.New", r>>), S>>
    [] ev.op = "extract" -> <<W(IF S.D[ev.v[2]].ext THEN Same(S.D, ev.got, <<"ok", ev.v[4]>>) ELSE ev.got = Refused, <<"ExtractInitArg">>), S>>
    [] ev.op = "text" ->
         LET r == ReadT(S, ev.t) IN
         \* a name that nothing has (yet) is the name of a type that may be defined later
         <<W(SameT(S.D, ev.got, r) \/ (r = Refused /\ Unknown(S, ev.t)), <<"parsed as", r>>) \cup W(r = <<"ok", ev.t>> => ev.eq, <<"isn't equal">>), S>>
    [] ev.op = "stream" ->
         IF ~(ev.rich /\ Extractable(S.D, ev.v)) THEN <<W(ev.out = "refused", <<"written">>), S>>
         ELSE IF ev.out # "ok" THEN <<{<<"refused to write">>}, S>>
         ELSE LET r == Read(S, ev.v) IN <<W(Same(S.D, ev.got, r), <<"read as", r>>), S>>
    [] ev.op = "race" ->
         LET n == Len(ev.ops)
             fits == {p \in Perms(n) : LET a == After(S.reg, ev.ops, p, 1) IN
                                         a[1] /\ \A i \in 1..Len(ev.after) : a[2][ev.after[i][1]] = ev.after[i][2]}
         IN  IF fits = {} THEN <<{<<"no order explains this">>}, S>>
             ELSE <<{}, [D |-> ev.defs, reg |-> After(S.reg, ev.ops, CHOOSE p \in fits : TRUE, 1)[2]]>>

Init == S = Start /\ l = 1 /\ bad = FALSE
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.op = "reset" THEN S' = Start /\ bad' = FALSE
     ELSE IF bad THEN UNCHANGED <<S, bad>>
     ELSE IF ev.op = "panic" THEN S' = S /\ bad' = TRUE /\ PrintT(<<"REJECT", l, "unexpected panic">>)
     ELSE LET x == Step(ev) IN
          /\ S' = x[2]
          /\ bad' = (x[1] # {} /\ ev.op \in {"register", "race"})
          /\ x[1] # {} => PrintT(<<"REJECT", l, x[1]>>)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
