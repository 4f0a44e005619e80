----------------------------- MODULE SnakeCamel -----------------------------
(* snake2camel as rewriting.  A joint of a line is an underscore that directly *)
(* follows a lowercase letter with any digits after it, and directly precedes  *)
(* an alphanumeric.  One rewriting step takes the last joint of a line.        *)
EXTENDS Bytes, FiniteSets

\* Position i of s ends a lowercase letter followed by any digits
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == i >= 1 /\ (s[i] \in Lower \/ (s[i] \in Digit /\ WordEnd(s, i - 1)))

Joints(s) == {i \in 2..(Len(s) - 1) : s[i] = Underscore /\ s[i+1] \in Alnum /\ WordEnd(s, i - 1)}
UpB(c) == IF c \in Lower THEN c - 32 ELSE c

Join(s, i) == SubSeq(s, 1, i - 1) \o <<UpB(s[i+1])>> \o SubSeq(s, i + 2, Len(s))
LastJoint(s) == CHOOSE i \in Joints(s) : \A k \in Joints(s) : k <= i

RECURSIVE LineFix(_)
LineFix(s) == IF Joints(s) = {} THEN s ELSE LineFix(Join(s, LastJoint(s)))

\* Lines, with the position of their breaks
Breaks(s) == {i \in 1..Len(s) : s[i] = LF}
NextBreak(s, i) == IF \E k \in Breaks(s) : k >= i
                   THEN CHOOSE k \in Breaks(s) : k >= i /\ \A j \in Breaks(s) : j >= i => k <= j
                   ELSE Len(s) + 1
RECURSIVE FixFrom(_, _)
FixFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET k == NextBreak(s, i) IN
       LineFix(SubSeq(s, i, k - 1)) \o (IF k <= Len(s) THEN <<LF>> ELSE <<>>) \o FixFrom(s, k + 1)
SnakeFix(s) == FixFrom(s, 1)
=============================================================================
