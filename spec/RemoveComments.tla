--------------------------- MODULE RemoveComments ---------------------------
(* removecomments, line by line.  A line ends with a line feed (or the end of  *)
(* the file).  Directive lines go, and with them the white-space-only lines     *)
(* directly before them; nothing else does.                                     *)
EXTENDS Bytes

RmWs == {9, 10, 12, 13, 32}
RmMark == <<47, 47, 108, 105, 110, 101>>       \* //line

\* Split into lines, each with its line feed
RECURSIVE RmLines(_, _, _)
RmLines(s, i, cur) ==
  IF i > Len(s) THEN IF cur = <<>> THEN <<>> ELSE <<cur>>
  ELSE IF s[i] = 10 THEN <<Append(cur, 10)>> \o RmLines(s, i + 1, <<>>)
  ELSE RmLines(s, i + 1, Append(cur, s[i]))

Blank(x) == \A i \in 1..Len(x) : x[i] \in RmWs
Indent(x) == IF \E i \in 1..Len(x) : x[i] \notin RmWs
             THEN (CHOOSE i \in 1..Len(x) : x[i] \notin RmWs /\ \A k \in 1..(i-1) : x[k] \in RmWs) - 1
             ELSE Len(x)
Directive(x) == LET n == Indent(x) IN
                Len(x) >= n + Len(RmMark) /\ SubSeq(x, n + 1, n + Len(RmMark)) = RmMark

\* Going through the lines, blank ones are held back until it is known whether
\* a directive follows
RECURSIVE RmGo(_, _, _)
RmGo(ls, held, out) ==
  IF ls = <<>> THEN out \o held
  ELSE IF Directive(Head(ls)) THEN RmGo(Tail(ls), <<>>, out)
  ELSE IF Blank(Head(ls)) THEN RmGo(Tail(ls), held \o Head(ls), out)
  ELSE RmGo(Tail(ls), <<>>, out \o held \o Head(ls))
RmComments(s) == RmGo(RmLines(s, 1, <<>>), <<>>, <<>>)
=============================================================================
