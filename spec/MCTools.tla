------------------------------- MODULE MCTools -------------------------------
(* The two source tools on every small file, grown token by token: what the   *)
(* rewriting models promise (termination of the rewriting is evaluation        *)
(* coming to an end), and the export of every file with its image.             *)
EXTENDS SnakeCamel, RemoveComments, Json, TLC

CONSTANTS Tool,      \* "snake" or "rmc"
          Depth      \* tokens

VARIABLES n, file
vars == <<n, file>>

\* a Z 1 _ . LF
SnakeTokens == {<<97>>, <<90>>, <<49>>, <<95>>, <<46>>, <<10>>}
\* //line, /, space, tab, LF, CRLF, x
RmTokens == {RmMark, <<47>>, <<32>>, <<9>>, <<10>>, <<13, 10>>, <<120>>}

Tokens == IF Tool = "snake" THEN SnakeTokens ELSE RmTokens

Init == n = 0 /\ file = <<>>
Next == /\ n < Depth /\ n' = n + 1
        /\ \E t \in Tokens : file' = file \o t
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Count(s, b) == Cardinality({i \in 1..Len(s) : s[i] = b})

\* C18
SnakeOK ==
  LET o == SnakeFix(file) IN
  /\ SnakeFix(o) = o                                  \* nothing left to do
  /\ Count(o, LF) = Count(file, LF)
  /\ Len(file) - Len(o) = Count(file, Underscore) - Count(o, Underscore)
  /\ LowS(SelectSeq(o, LAMBDA c : c # Underscore))
       = LowS(SelectSeq(file, LAMBDA c : c # Underscore))
  \* one rewriting step removes one joint and keeps the line's other bytes
  /\ \A i \in Joints(file) : Len(Join(file, i)) = Len(file) - 1

\* C19
Solid(s) == SelectSeq(s, LAMBDA c : c \notin RmWs)
RmOK ==
  LET o == RmComments(file) IN
  /\ RmComments(o) = o
  /\ (\A k \in 1..Len(RmLines(file, 1, <<>>)) : ~Directive(RmLines(file, 1, <<>>)[k])) => o = file
  /\ \A k \in 1..Len(RmLines(o, 1, <<>>)) : ~Directive(RmLines(o, 1, <<>>)[k])
  \* what stays are the lines that are no directives, in order, blank ones apart
  /\ SelectSeq(RmLines(o, 1, <<>>), LAMBDA x : ~Blank(x))
       = SelectSeq(RmLines(file, 1, <<>>), LAMBDA x : ~Blank(x) /\ ~Directive(x))

Inv == IF Tool = "snake" THEN SnakeOK ELSE RmOK

Emit == PrintT("FILE " \o ToJson([t |-> file, out |-> IF Tool = "snake" THEN SnakeFix(file) ELSE RmComments(file)]))
=============================================================================
