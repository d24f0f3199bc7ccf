-------------------------------- MODULE CostMC -------------------------------
\* The room of a collection is never more than the greatest length that a collection had: it isn't told by the number of operations
EXTENDS Cost
VARIABLE peak
Slots == 3
Greatest == 4
Range(s) == {s[i] : i \in DOMAIN s}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Init == len = <<>> /\ room = <<>> /\ peak = 0
Next ==
  /\ \E at \in 0..Slots, n \in 0..Greatest :
       LET live == DOMAIN len IN
       \E of \in {<<>>} \cup {<<i>> : i \in live} \cup {<<i, j>> : i, j \in live} :
         /\ at <= Len(len) + 1
         /\ at = 0 => of # <<>>
         /\ LET ls == IF at = 0 THEN [len EXCEPT ![of[1]] = n] ELSE IF at \in live THEN [len EXCEPT ![at] = n] ELSE Append(len, n) IN Op(of, at, ls)
  /\ peak' = MaxOf({peak} \cup Range(len'))
Spec == Init /\ [][Next]_<<len, room, peak>>
Rooms == \A i \in DOMAIN len : len[i] <= room[i] /\ room[i] <= peak
=============================================================================
