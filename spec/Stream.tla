------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* Streams of events that describe values.                                 *)
(*                                                                         *)
(* A graph is a sequence of nodes, where the first one is the root. Nodes  *)
(* refer to each other by index, so a graph tells what is the same object. *)
(*   <<"leaf", value>>  nil, boolean, integer, float or string             *)
(*   <<"bin", bytes>> <<"tm", text>> <<"t", text>>  binary, time and type  *)
(*   <<"sens", node>>  <<"arr", nodes>>  <<"map", <<key, value, key, ...>>>>*)
(*   <<"named", name, <<a, b>>>>   <<"named", name, <<key, a, key, b>>>>  *)
(*   <<"odd">>         something that can't be streamed                    *)
(*   <<"?">>           something that this specification is silent about   *)
(* The events are those of JsonText.tla, where <<"add", leaf>> also can be     *)
(* <<"add", <<"bin", ...>>>> and <<"add", <<"tm", ...>>>>, and where       *)
(* <<"arr", n>> and <<"map", n>> have the number of elements and entries   *)
(* that were announced.                                                    *)
(* D is a dialect: the strings type, value, ref, map, sens, bin, time, and *)
(* alias. X.named has the names of named types, X.types the texts of types *)
(* and X.times the texts of times.                                         *)
(***************************************************************************)
EXTENDS JsonText

Dialects == [
  dgo |-> [type |-> <<95, 95, 116, 121, 112, 101>>, value |-> <<95, 95, 118, 97, 108, 117, 101>>, ref |-> <<95, 95, 114, 101, 102>>,
           map |-> <<109, 97, 112>>, sens |-> <<115, 101, 110, 115, 105, 116, 105, 118, 101>>, bin |-> <<98, 105, 110, 97, 114, 121>>,
           time |-> <<116, 105, 109, 101>>, alias |-> <<97, 108, 105, 97, 115>>],
  pcore |-> [type |-> <<95, 95, 112, 116, 121, 112, 101>>, value |-> <<95, 95, 112, 118, 97, 108, 117, 101>>,
             ref |-> <<95, 95, 112, 114, 101, 102>>, map |-> <<72, 97, 115, 104>>,
             sens |-> <<83, 101, 110, 115, 105, 116, 105, 118, 101>>, bin |-> <<66, 105, 110, 97, 114, 121>>,
             time |-> <<84, 105, 109, 101, 115, 116, 97, 109, 112>>, alias |-> <<65, 108, 105, 97, 115>>]]

-----------------------------------------------------------------------------
\* Binaries are represented as standard base64 with padding

B64Digit(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4
               ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
RECURSIVE B64(_, _, _)
\* the bytes that the text s denotes from i on, or <<-1>>
B64(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF i + 3 > Len(s) THEN <<-1>>
  ELSE LET a == B64Digit(s[i]) b == B64Digit(s[i + 1]) c == B64Digit(s[i + 2]) d == B64Digit(s[i + 3])
           pads == IF i + 3 # Len(s) THEN 0 ELSE IF s[i + 2] = 61 /\ s[i + 3] = 61 THEN 2 ELSE IF s[i + 3] = 61 THEN 1 ELSE 0
       IN
       IF a < 0 \/ b < 0 \/ (pads < 2 /\ c < 0) \/ (pads < 1 /\ d < 0) THEN <<-1>>
       ELSE IF pads = 2 THEN IF b % 16 # 0 THEN <<-1>> ELSE Append(acc, a * 4 + b \div 16)
       ELSE IF pads = 1 THEN IF c % 4 # 0 THEN <<-1>> ELSE acc \o <<a * 4 + b \div 16, (b % 16) * 16 + c \div 4>>
       ELSE B64(s, i + 4, acc \o <<a * 4 + b \div 16, (b % 16) * 16 + c \div 4, (c % 4) * 64 + d>>)

-----------------------------------------------------------------------------
\* What a sequence of events builds: a sequence of nodes [k, v, cs, p, pos, len] with the kind, the leaf, the children, the
\* parent, the position among the children of the parent, and the announced number of elements or entries. A child that is
\* negative is a reference.

NodeOf(k, v, p, pos, len) == [k |-> k, v |-> v, cs |-> <<>>, p |-> p, pos |-> pos, len |-> len]

RECURSIVE Building(_, _, _, _)
\* [E |-> the nodes, ok |-> the events make sense]
Building(evs, i, E, stack) ==
  IF i > Len(evs) THEN [E |-> E, ok |-> Len(stack) = 0 /\ Len(E) > 0, at |-> i]
  ELSE
  LET ev == evs[i]
      n == Len(E) + 1
      top == IF Len(stack) = 0 THEN 0 ELSE stack[Len(stack)]
      pos == IF top = 0 THEN 1 ELSE Len(E[top].cs) + 1
      bad == [E |-> E, ok |-> FALSE, at |-> i]
      Put(c) == IF top = 0 THEN E ELSE [E EXCEPT ![top].cs = Append(@, c)]
  IN
  IF ev[1] = "end" THEN IF top = 0 THEN bad ELSE Building(evs, i + 1, E, SubSeq(stack, 1, Len(stack) - 1))
  ELSE IF top = 0 /\ n > 1 THEN bad \* a stream has one root
  ELSE IF ev[1] = "ref" THEN
    IF ev[2] < 0 \/ ev[2] >= Len(E) THEN bad ELSE Building(evs, i + 1, Put(-(ev[2] + 1)), stack)
  ELSE IF ev[1] = "add" THEN Building(evs, i + 1, Append(Put(n), NodeOf("leaf", ev[2], top, pos, 0)), stack)
  ELSE Building(evs, i + 1, Append(Put(n), NodeOf(ev[1], <<>>, top, pos, ev[2])), Append(stack, n))
Build(evs) == Building(evs, 1, <<>>, <<>>)

Abs(c) == IF c < 0 THEN -c ELSE c
IsText(E, c) == E[Abs(c)].k = "leaf" /\ E[Abs(c)].v[1] = "s"
TextOf(E, c) == E[Abs(c)].v[2]
Deref(cs) == [i \in 1..Len(cs) |-> Abs(cs[i])]
Odd(i) == i % 2 = 1
HasType(E, n, D) == \E i \in 1..Len(E[n].cs) : Odd(i) /\ IsText(E, E[n].cs[i]) /\ TextOf(E, E[n].cs[i]) = D.type

\* A map whose first key is the type key of the dialect stands for something else
\* The named types that the recordings use have two attributes, a and b. They are given as an array or as entries.
Says2(E, c, letter) == IsText(E, c) /\ TextOf(E, c) = <<letter>>

IsRich(E, n, D) == E[n].k = "map" /\ HasType(E, n, D)
Rich(E, n, D, X) ==
  LET cs == E[n].cs
      name == TextOf(E, cs[2])
      second == Len(cs) = 4 /\ IsText(E, cs[3]) /\ TextOf(E, cs[3]) = D.value
      val == Abs(cs[4])
  IN
  IF ~(IsText(E, cs[1]) /\ TextOf(E, cs[1]) = D.type /\ IsText(E, cs[2])) THEN <<"?">>
  ELSE IF Len(cs) = 2 THEN IF name \in X.types THEN <<"t", name>> ELSE <<"?">>
  ELSE IF second /\ name = D.map /\ E[val].k = "arr" /\ Len(E[val].cs) % 2 = 0 THEN <<"map", Deref(E[val].cs)>>
  ELSE IF second /\ name = D.sens THEN <<"sens", val>>
  ELSE IF second /\ name = D.bin /\ IsText(E, cs[4]) THEN
    LET b == B64(TextOf(E, cs[4]), 1, <<>>) IN IF b = <<-1>> THEN <<"?">> ELSE <<"bin", b>>
  ELSE IF second /\ name = D.time /\ IsText(E, cs[4]) THEN IF TextOf(E, cs[4]) \in X.times THEN <<"tm", TextOf(E, cs[4])>> ELSE <<"?">>
  ELSE IF second /\ name = D.alias /\ E[val].k = "arr" /\ Len(E[val].cs) = 2 /\ IsText(E, E[val].cs[1]) /\ IsText(E, E[val].cs[2])
          /\ TextOf(E, E[val].cs[2]) \in X.types THEN <<"t", TextOf(E, E[val].cs[2])>>
  ELSE IF name \in X.named /\ second /\ E[val].k = "arr" /\ Len(E[val].cs) = 2 THEN <<"named", name, Deref(E[val].cs)>>
  ELSE IF name \in X.named /\ Len(cs) = 6 /\ Says2(E, cs[3], 97) /\ Says2(E, cs[5], 98) THEN
    <<"named", name, Deref(SubSeq(cs, 3, 6))>>
  ELSE <<"?">>

\* The graph that is built. Raw is what a collector that doesn't interpret anything makes of it.
Raw(E, n) ==
  IF E[n].k # "leaf" THEN <<E[n].k, Deref(E[n].cs)>>
  ELSE IF E[n].v[1] \in {"bin", "tm"} THEN E[n].v ELSE <<"leaf", E[n].v>>
RawGraph(E) == [n \in 1..Len(E) |-> Raw(E, n)]
IsColl(x) == x[1] \in {"arr", "map"}
\* What is referred to without, or also by way of, keys
Kids(x, keys) ==
  CASE IsColl(x) -> {x[2][i] : i \in {j \in 1..Len(x[2]) : keys \/ x[1] = "arr" \/ ~Odd(j)}}
    [] x[1] = "sens" -> {x[2]}
    [] x[1] = "named" -> {x[3][i] : i \in {j \in 1..Len(x[3]) : keys \/ Len(x[3]) = 2 \/ ~Odd(j)}}
    [] OTHER -> {}
RECURSIVE Closure(_, _, _, _)
Closure(G, todo, done, keys) ==
  IF todo = {} THEN done
  ELSE LET more == UNION {Kids(G[n], keys) : n \in todo} IN Closure(G, more \ (done \cup todo), done \cup todo, keys)

Interpreted(E, D, X) == [n \in 1..Len(E) |-> IF IsRich(E, n, D) THEN Rich(E, n, D, X) ELSE Raw(E, n)]
\* an instance of a named type can't be created from an argument that contains the instance
Nested(M, n) == M[n][1] = "named" \/ (M[n][1] = "sens" /\ M[M[n][2]][1] = "sens")
Possible(M) ==
  [n \in 1..Len(M) |-> IF Nested(M, n) /\ n \in Closure(M, Kids(M[n], TRUE), {}, TRUE) THEN <<"?">> ELSE M[n]]
Meaning(E, D, X) == Possible(Interpreted(E, D, X))

-----------------------------------------------------------------------------
\* Form lists what can be reached from the root in depth first order, where an array or map that was listed before is
\* <<"again", its ordinal>>. Two graphs with the same form have the same content, order, and shared objects. What is in a key
\* is frozen, so there is no telling if it is shared. Neither is it if nothing is shared (alike).
Find(ids, n) == IF \E i \in 1..Len(ids) : ids[i] = n THEN CHOOSE i \in 1..Len(ids) : ids[i] = n ELSE 0

RECURSIVE Walk(_, _, _, _, _)
RECURSIVE WalkAll(_, _, _, _, _, _, _)
Walk(G, n, st, key, d) ==
  LET x == G[n] IN
  IF d > 40 THEN [st EXCEPT !.out = Append(@, <<"?">>)]
  ELSE IF IsColl(x) /\ ~key /\ Find(st.ids, n) # 0 THEN [st EXCEPT !.out = Append(@, <<"again", Find(st.ids, n)>>)]
  ELSE IF IsColl(x) THEN
    WalkAll(G, x[2], 1, [out |-> Append(st.out, <<x[1], Len(x[2])>>), ids |-> IF key THEN st.ids ELSE Append(st.ids, n)],
            key, x[1] = "map", d + 1)
  ELSE IF x[1] = "sens" THEN Walk(G, x[2], [st EXCEPT !.out = Append(@, <<"sens">>)], key, d + 1)
  ELSE IF x[1] = "named" THEN
    WalkAll(G, x[3], 1, [st EXCEPT !.out = Append(@, <<"named", x[2], Len(x[3])>>)], key, Len(x[3]) = 4, d + 1)
  ELSE [st EXCEPT !.out = Append(@, x)]
WalkAll(G, cs, i, st, key, map, d) ==
  IF i > Len(cs) THEN st
  ELSE WalkAll(G, cs, i + 1, Walk(G, cs[i], st, key \/ (map /\ Odd(i)), d), key, map, d)

Form(G, shared) == Walk(G, 1, [out |-> <<>>, ids |-> <<>>], ~shared, 0).out

\* What is unknown ends the comparison
SameForm(f, g) ==
  LET q == {i \in 1..Min2(Len(f), Len(g)) : f[i] = <<"?">> \/ g[i] = <<"?">>} IN
  IF q = {} THEN f = g
  ELSE LET n == (CHOOSE i \in q : \A j \in q : i <= j) - 1 IN SubSeq(f, 1, n) = SubSeq(g, 1, n)

-----------------------------------------------------------------------------
\* What can be reached from the root without, or also by way of, keys

Reach(G, keys) == Closure(G, {1}, {}, keys)
Objects(G, keys) == {n \in Reach(G, keys) : G[n][1] \notin {"leaf", "?"}}
\* the names of attributes are said each time
Attributes(G) == UNION {{G[n][3][1], G[n][3][3]} : n \in {m \in 1..Len(G) : G[m][1] = "named" /\ Len(G[m][3]) = 4}}
Strings(G, keys, min) ==
  {n \in Reach(G, keys) \ Attributes(G) : G[n][1] = "leaf" /\ G[n][2][1] = "s" /\ Len(G[n][2][2]) >= min}

\* The keys of a map that are texts
TextKeys(G, n) == \A i \in 1..Len(G[n][2]) : Odd(i) => LET k == G[G[n][2][i]] IN k[1] = "leaf" /\ k[2][1] = "s"

\* Must the graph be refused? cfg has rich (rich data), and the abilities bin, time, complex of the consumer.
Refused(G, cfg) ==
  \E n \in Reach(G, TRUE) :
    \/ G[n][1] = "odd"
    \/ ~cfg.rich /\ \/ G[n][1] \in {"sens", "named"}
                    \/ G[n][1] = "bin" /\ ~cfg.bin
                    \/ G[n][1] = "tm" /\ ~cfg.time
                    \/ G[n][1] = "map" /\ ~cfg.complex /\ ~TextKeys(G, n)

-----------------------------------------------------------------------------
\* Rules that the events of a stream follow. cfg also has level (0: no references, 1: no references in keys, 2: references
\* anywhere) and min (no references to shorter strings).

Level(cfg) == IF cfg.level = 2 /\ ~cfg.complex THEN 1 ELSE cfg.level

\* what is in a key (also in what represents a map with keys that are not strings)
RECURSIVE InKey(_, _, _)
IsKeyPos(E, p, pos, D) ==
  Odd(pos) /\ \/ E[p].k = "map"
              \/ /\ E[p].k = "arr" /\ E[p].p # 0 /\ E[p].pos = 4
                 /\ IsRich(E, E[p].p, D)
                 /\ IsText(E, E[E[p].p].cs[2]) /\ TextOf(E, E[E[p].p].cs[2]) = D.map
InKey(E, n, D) == IF E[n].p = 0 THEN FALSE ELSE IsKeyPos(E, E[n].p, E[n].pos, D) \/ InKey(E, E[n].p, D)

W(p, what) == IF p THEN {} ELSE {what}

Rules(E, cfg, D) ==
  LET refs == UNION {{<<n, i>> : i \in {j \in 1..Len(E[n].cs) : E[n].cs[j] < 0}} : n \in 1..Len(E)}
      level == Level(cfg)
  IN
  W(\A n \in 1..Len(E) : CASE E[n].k = "leaf" -> TRUE
                           [] E[n].k = "arr" -> Len(E[n].cs) = E[n].len
                           [] OTHER -> Len(E[n].cs) = 2 * E[n].len, "announced size")
  \cup W(\A n \in 1..Len(E) : E[n].k = "leaf" => E[n].v[1] \in {"n", "b", "i", "f", "s"} \cup (IF cfg.bin THEN {"bin"} ELSE {})
                                                      \cup (IF cfg.time THEN {"tm"} ELSE {}), "leaf that the consumer can't handle")
  \cup W(cfg.complex \/ \A n \in 1..Len(E) : E[n].k = "map" =>
           \A i \in 1..Len(E[n].cs) : Odd(i) => E[n].cs[i] > 0 /\ IsText(E, E[n].cs[i]), "key that isn't a string")
  \cup W(level > 0 \/ refs = {}, "reference")
  \cup W(level # 1 \/ \A r \in refs : ~IsKeyPos(E, r[1], r[2], D) /\ ~InKey(E, r[1], D), "reference in key")
  \cup W(\A r \in refs : LET x == E[-(E[r[1]].cs[r[2]])] IN
           x.k = "leaf" => x.v[1] \notin {"n", "b", "i", "f"} /\ (x.v[1] = "s" => Len(x.v[2]) >= cfg.min), "reference to something small")

\* Things that are the same are said once
Once(G, M, cfg) ==
  LET level == Level(cfg)
      ss == Strings(M, level = 2, cfg.min)
  IN
  IF level = 0 \/ \E n \in 1..Len(M) : M[n] = <<"?">> THEN {}
  ELSE W(Cardinality(Objects(G, level = 2)) = Cardinality(Objects(M, level = 2)), "said twice")
       \cup W(\A a, b \in ss : M[a] = M[b] => a = b, "string said twice")

\* the types that have a name are said by means of that name. ali has <<name, text>> of those.
Aliases(E, D, X, ali) ==
  W(\A n \in 1..Len(E) : IsRich(E, n, D) /\ Rich(E, n, D, X)[1] = "t" =>
      LET text == Rich(E, n, D, X)[2] IN
      IF Len(E[n].cs) = 2 THEN \A i \in 1..Len(ali) : ali[i][2] # text
      ELSE \E i \in 1..Len(ali) : ali[i] = <<TextOf(E, E[Abs(E[n].cs[4])].cs[1]), text>>, "name of type")
=============================================================================
