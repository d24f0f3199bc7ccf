------------------------------- MODULE Readers ------------------------------
(***************************************************************************)
(* Goroutines that read what is frozen (P21).                              *)
(*                                                                         *)
(* Nodes hold a number and refer to others. Each has a word where a        *)
(* computed hash code may be kept. Processes compute the hash code of a    *)
(* node, compare nodes, and derive nodes of their own from a frozen one    *)
(* that they then change. Loading and storing a word, and each step from   *)
(* a node to the next, are steps of their own; they happen in any order.   *)
(*                                                                         *)
(* What is required: a frozen node never changes (other than the word),    *)
(* the word is 0 or what is computed from the content, and what each       *)
(* process gets is what it would get if it were alone.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Procs, Content, Refs      \* Content[n]: a number, Refs[n]: nodes with lower numbers
Nodes == DOMAIN Content

RECURSIVE Hash(_), HashAll(_, _)
HashAll(ns, h) == IF ns = <<>> THEN h ELSE HashAll(Tail(ns), (31 * h + Hash(Head(ns))) % 1009)
Hash(n) == 1 + HashAll(Refs[n], Content[n])
RECURSIVE Same(_, _)
Same(a, b) == Content[a] = Content[b] /\ Len(Refs[a]) = Len(Refs[b]) /\ \A i \in DOMAIN Refs[a] : Same(Refs[a][i], Refs[b][i])

VARIABLES content, refs, word, \* the nodes
          stack,               \* of each process: what it is doing
          got,                 \* what it got last
          own                  \* nodes that it has derived: sequences of <<number, references>>
vars == <<content, refs, word, stack, got, own>>

Init ==
  /\ content = Content /\ refs = Refs
  /\ word = [n \in Nodes |-> 0]
  /\ stack = [p \in Procs |-> <<>>]
  /\ got = [p \in Procs |-> <<"nothing">>]
  /\ own = [p \in Procs |-> <<>>]

Start(p) ==
  /\ stack[p] = <<>>
  /\ \E n \in Nodes :
       \/ stack' = [stack EXCEPT ![p] = <<<<"load", n>>>>] /\ own' = own
       \/ \E m \in Nodes : stack' = [stack EXCEPT ![p] = <<<<"same", {<<n, m>>}, n, m>>>>] /\ own' = own
       \/ own[p] = <<>> /\ own' = [own EXCEPT ![p] = <<<<content[n], refs[n]>>>>] /\ stack' = stack
       \/ own[p] # <<>> /\ own' = [own EXCEPT ![p] = <<<<@[1][1] + 1, Append(<<>>, n)>>>>] /\ own[p][1][1] < 2 /\ stack' = stack
       \/ own[p] # <<>> /\ own' = [own EXCEPT ![p] = <<>>] /\ stack' = stack
  /\ got' = [got EXCEPT ![p] = <<"nothing">>]
  /\ UNCHANGED <<content, refs, word>>

\* the hash code of the node on top of the stack is x: it's what the process wanted, or used for the node below
Yield(p, x) ==
  LET st == Tail(stack[p]) IN
  IF st = <<>> THEN got' = [got EXCEPT ![p] = <<"hash", Head(stack[p])[2], x>>] /\ stack' = [stack EXCEPT ![p] = <<>>]
  ELSE got' = got /\ stack' = [stack EXCEPT ![p] = <<<<"sum", st[1][2], (31 * st[1][3] + x) % 1009, Tail(st[1][4])>>>> \o Tail(st)]

Step(p) ==
  /\ stack[p] # <<>>
  /\ LET f == Head(stack[p]) IN
     CASE f[1] = "load" ->
            /\ IF word[f[2]] # 0 THEN Yield(p, word[f[2]])
               ELSE stack' = [stack EXCEPT ![p] = <<<<"sum", f[2], content[f[2]], refs[f[2]]>>>> \o Tail(@)] /\ got' = got
            /\ UNCHANGED word
       [] f[1] = "sum" /\ f[4] # <<>> ->
            stack' = [stack EXCEPT ![p] = <<<<"load", f[4][1]>>>> \o @] /\ UNCHANGED <<got, word>>
       [] f[1] = "sum" -> word' = [word EXCEPT ![f[2]] = 1 + f[3]] /\ Yield(p, 1 + f[3])
       [] f[1] = "same" ->
            /\ UNCHANGED word
            /\ IF f[2] = {} THEN got' = [got EXCEPT ![p] = <<"same", f[3], f[4], TRUE>>] /\ stack' = [stack EXCEPT ![p] = <<>>]
               ELSE LET c == CHOOSE x \in f[2] : TRUE IN
                    IF content[c[1]] # content[c[2]] \/ Len(refs[c[1]]) # Len(refs[c[2]])
                    THEN got' = [got EXCEPT ![p] = <<"same", f[3], f[4], FALSE>>] /\ stack' = [stack EXCEPT ![p] = <<>>]
                    ELSE got' = got /\ stack' = [stack EXCEPT ![p] = <<<<"same", (f[2] \ {c}) \cup {<<refs[c[1]][i], refs[c[2]][i]>> : i \in DOMAIN refs[c[1]]}, f[3], f[4]>>>>]
  /\ UNCHANGED <<content, refs, own>>

Next == \E p \in Procs : Start(p) \/ Step(p)
Spec == Init /\ [][Next]_vars

Frozen == content = Content /\ refs = Refs
Words == \A n \in Nodes : word[n] \in {0, Hash(n)}
Alone == \A p \in Procs :
  CASE got[p][1] = "hash" -> got[p][3] = Hash(got[p][2])
    [] got[p][1] = "same" -> got[p][4] = Same(got[p][2], got[p][3])
    [] OTHER -> TRUE
=============================================================================
