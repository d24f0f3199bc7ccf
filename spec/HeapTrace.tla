----------------------------- MODULE HeapTrace -----------------------------
(***************************************************************************)
(* Validates a trace of calls on real dgo collections against the heap     *)
(* machine. Each line of the trace is one call: the operation, its         *)
(* arguments, the observed result r and a projection h of the whole heap   *)
(* after the call. The trace is accepted when every call is the step that  *)
(* the machine takes from the heap observed before it, and no property of  *)
(* the machine is violated. A rejected event is reported and validation    *)
(* resumes from the heap that was observed, so that one deviation does not *)
(* hide another.                                                           *)
(*                                                                         *)
(* PROP selects what is judged: each deviation is classified so that it's  *)
(* attributed to the property that it violates.                            *)
(***************************************************************************)
EXTENDS Heap, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES H, l
vars == <<H, l>>

Init == H = <<>> /\ l = 1

MapMakers == {"NewMap", "NewMapFrom", "NewMapGo", "ToMap", "FromPairs"}
ArrMakers == {"NewArr", "ArrFrom"}
KindOf(ev) == IF "a" \in DOMAIN ev /\ ev.a \in 1..Len(H) THEN H[ev.a].k ELSE ""

\* The frozen state of an object: its flag and the flags of what it contains
RECURSIVE Flags(_, _)
Flags(HH, v) ==
  IF ~IsColl(v) THEN <<>>
  ELSE IF v[1] = "r" THEN <<"r">>
  ELSE <<v[1], [i \in 1..Len(v[2]) |-> IF v[1] = "fa" THEN Flags(HH, v[2][i]) ELSE Flags(HH, v[2][i][2])]>>
FlagsOf(HH) ==
  [i \in 1..Len(HH) |->
    <<HH[i].f, [j \in 1..Len(HH[i].e) |-> IF HH[i].k = "a" THEN Flags(HH, HH[i].e[j]) ELSE Flags(HH, HH[i].e[j][2])]>>]

\* A set of what is wrong with a recorded event, given the heap before it. Empty when it is a step of the machine.
Wrong(ev) ==
  LET S == Step(H, ev)
      expH == NormHeap(S.h)
      expR == NormR(S.h, S.r)
      fz == "a" \in DOMAIN ev /\ ev.a \in 1..Len(H) /\ H[ev.a].f
      W(p, name, what) == IF p THEN {} ELSE {<<name, what>>}
  IN W(expR = ev.r, "result", expR)
     \cup W(expH = ev.h, "heap", expH)
     \cup W((expR = Panic) = (ev.r = Panic) \/ ~fz, "frozen-panic", expR)
     \cup W(FlagsOf(expH) = FlagsOf(ev.h), "flags", expH)
     \cup W(\A id \in 1..Len(H) : ("a" \in DOMAIN ev /\ id = ev.a) \/ expH[id] = ev.h[id], "others", expH)
     \cup W(Len(expH) = Len(ev.h), "count", Len(expH))
     \cup W(expR[1] = "new" /\ ev.r[1] = "new" => expR[2] = ev.r[2], "identity", expR)
     \cup W(FrozenForever(H, ev.h), "FrozenForever", 0)
     \cup W(OnlyMutatorsMutate(H, ev, ev.h), "OnlyMutatorsMutate", 0)
     \cup W(MutatesReceiverOnly(H, ev, ev.h), "MutatesReceiverOnly", 0)
     \cup W(FreshResult(H, ev, ev.h, ev.r), "FreshResult", 0)
     \cup W(~KeysUnique(H) \/ KeysUnique(ev.h), "KeysUnique", 0)
     \cup W(~KeysFrozen(H) \/ KeysFrozen(ev.h), "KeysFrozen", 0)
     \cup W(~FrozenIsDeep(H) \/ FrozenIsDeep(ev.h), "FrozenIsDeep", 0)

Concerns(ev, w) ==
  CASE Prop = "P01" ->
         \/ w \in {"KeysUnique", "KeysFrozen"}
         \/ w \in {"result", "heap"} /\ (ev.op \in MapOps \cup MapMakers \/ KindOf(ev) = "m")
    [] Prop = "P02" -> w \in {"result", "heap"} /\ (ev.op \in ArrayOps \cup ArrMakers \/ KindOf(ev) = "a")
    [] Prop = "P03" -> w \in {"others", "count", "identity", "OnlyMutatorsMutate", "MutatesReceiverOnly", "FreshResult"}
    [] Prop = "P04" -> w \in {"frozen-panic", "flags", "FrozenForever", "KeysFrozen", "FrozenIsDeep"}
    [] OTHER -> TRUE

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.op = "reset" THEN H' = <<>>
     ELSE IF ev.op = "panic" THEN H' = <<>> /\ PrintT(<<"REJECT", l, "unexpected panic">>)
     ELSE /\ H' = ev.h
          /\ LET w == {x \in Wrong(ev) : Concerns(ev, x[1])} IN
             w # {} => PrintT(<<"REJECT", l, {x[1] : x \in w}, "expected", ToString(Step(H, ev).r)>>)

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
