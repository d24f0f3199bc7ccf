------------------------------- MODULE Indent -------------------------------
(***************************************************************************)
(* Indenters and string readers (package util). Text is a sequence of      *)
(* bytes. A family of indenters share one buffer and differ in level.      *)
(* A value graph is a sequence of nodes that refer to nodes by index:      *)
(*   <<"i", text>> <<"s", text>> <<"nil">> <<"arr", <<node...>>>>          *)
(*   <<"map", <<<<key, value>>...>>>>                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

NL == 10
Refused == <<-1>>
Blank == {32, 9}

\* the state of a family: what has been appended, the level of each indenter, the text of one level, and if it's
\* protected from endless recursion
Start(indent, erp) == [buf |-> <<>>, lv |-> <<0>>, ind |-> indent, erp |-> erp]

RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN <<>> ELSE s \o Rep(s, n - 1)

\* a new line at a level. An indenter without indentation makes no lines.
NewLine(ind, level) == IF ind = <<>> THEN <<>> ELSE <<NL>> \o Rep(ind, level)

RECURSIVE Indented(_, _, _)
Indented(s, ind, level) ==
  IF s = <<>> THEN <<>>
  ELSE (IF s[1] = NL THEN NewLine(ind, level) ELSE <<s[1]>>) \o Indented(Tail(s), ind, level)

\* the text without blanks at the end of lines
RECURSIVE Trimmed(_, _, _)
Trimmed(s, i, held) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] \in Blank THEN Trimmed(s, i + 1, Append(held, s[i]))
  ELSE IF s[i] = NL THEN <<NL>> \o Trimmed(s, i + 1, <<>>)
  ELSE held \o <<s[i]>> \o Trimmed(s, i + 1, <<>>)
Text(s) == Trimmed(s, 1, <<>>)

\* "<recursive self reference to " and ">"
SelfRef == <<60, 114, 101, 99, 117, 114, 115, 105, 118, 101, 32, 115, 101, 108, 102, 32, 114, 101, 102, 101, 114, 101, 110, 99, 101, 32, 116, 111, 32>>

\* the text of a node of a graph. In contains the nodes that it's within. self[n] is what the type of node n is called
RECURSIVE NodeText(_, _, _, _, _, _)
NodeText(g, n, self, ind, level, in) ==
  LET x == g[n]
      line == NewLine(ind, level)
      sub(m) == NodeText(g, m, self, ind, level + 1, in \cup {n})
      joined(parts) == FoldLeft(LAMBDA a, b : a \o b, <<>>,
                         [i \in 1..Len(parts) |-> (IF i > 1 THEN <<44>> ELSE <<>>) \o NewLine(ind, level + 1) \o parts[i]])
  IN
  CASE n \in in -> SelfRef \o self[n] \o <<62>>
    [] x[1] = "i" -> x[2]
    [] x[1] = "s" -> <<34>> \o x[2] \o <<34>>
    [] x[1] = "nil" -> <<110, 105, 108>>
    [] x[1] = "arr" -> <<123>> \o joined([i \in 1..Len(x[2]) |-> sub(x[2][i])]) \o line \o <<125>>
    [] x[1] = "map" -> <<123>> \o joined([i \in 1..Len(x[2]) |->
                          sub(x[2][i][1]) \o <<58>> \o (IF ind = <<>> THEN <<>> ELSE <<32>>) \o sub(x[2][i][2])]) \o line \o <<125>>

\* what a call on one of the indenters appends
Adds(S, ev) ==
  LET level == S.lv[ev.at] IN
  CASE ev.op = "append" -> ev.s
    [] ev.op = "indented" -> Indented(ev.s, S.ind, level)
    [] ev.op = "newline" -> NewLine(S.ind, level)
    [] ev.op = "value" -> NodeText(ev.g, ev.n, ev.self, S.ind, level, {})
    [] OTHER -> <<>>

Step(S, ev) ==
  CASE ev.op = "indent" -> [S EXCEPT !.lv = Append(@, @[ev.at] + 1)]
    [] ev.op = "empty" -> [S EXCEPT !.buf = <<>>]
    [] OTHER -> [S EXCEPT !.buf = @ \o Adds(S, ev)]

(***************************************************************************)
(* A string reader. The text is a sequence of <<rune, size, valid>>.       *)
(***************************************************************************)
RECURSIVE SizeTo(_, _)
SizeTo(t, n) == IF n = 0 THEN 0 ELSE SizeTo(t, n - 1) + t[n][2]
RECURSIVE LineAt(_, _)
LineAt(t, n) == IF n = 0 THEN 1 ELSE LineAt(t, n - 1) + (IF t[n][1] = NL THEN 1 ELSE 0)
RECURSIVE ColumnAt(_, _)
ColumnAt(t, n) == IF n = 0 \/ t[n][1] = NL THEN 1 ELSE ColumnAt(t, n - 1) + 1

\* p runes have been read. What is returned, or Refused, and how many have been read then. The end is read once.
Rune(t, i) == IF i > Len(t) THEN <<0>> ELSE IF t[i][3] THEN <<t[i][1]>> ELSE Refused
Read(t, p, what) ==
  CASE what = "next" -> LET r == Rune(t, p + 1) IN [r |-> r, p |-> IF r = Refused THEN p ELSE IF p > Len(t) THEN p ELSE p + 1]
    [] what = "peek" -> [r |-> Rune(t, p + 1), p |-> p]
    [] what = "peek2" -> [r |-> IF Rune(t, p + 1) = Refused THEN Refused ELSE Rune(t, p + 2), p |-> p]
    [] what = "rewind" -> [r |-> <<>>, p |-> 0]
=============================================================================
