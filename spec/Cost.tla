--------------------------------- MODULE Cost --------------------------------
(***************************************************************************)
(* What operations on collections may cost (P24).                          *)
(*                                                                         *)
(* Each live collection has a length and a room: the number of elements    *)
(* that memory is kept for. An operation on collections may allocate       *)
(* memory for what they have room for and for what it makes, but the room  *)
(* of what it makes is no more than what is needed, or was there before:   *)
(* it doesn't grow with the number of operations.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES len, room        \* sequences, one number for each live collection

Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Sum(_, _)
Sum(f, s) == IF s = <<>> THEN 0 ELSE f[Head(s)] + Sum(f, Tail(s))

\* bytes that may be allocated for an element, and for anything at all
PerElement == 640
Fixed == 64000
Allowed(of, made) == Fixed + PerElement * (Sum(room, of) + Sum(len, of) + made)

\* an operation on the collections of. The lengths are then ls; if at is not 0, it makes the collection in that slot
Op(of, at, ls) ==
  /\ len' = ls
  /\ room' = [i \in DOMAIN ls |->
       IF i \notin DOMAIN room THEN Max(ls[i], IF of = <<>> THEN 0 ELSE room[of[1]])
       ELSE IF i = at THEN Max(ls[i], IF of = <<>> THEN 0 ELSE room[of[1]])
       ELSE Max(room[i], ls[i])]
=============================================================================
