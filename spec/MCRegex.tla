------------------------------- MODULE MCRegex -------------------------------
(* The machine of UrnParser and the expressions of UrnRegex run side by side  *)
(* over every byte string: the machine accepts exactly the language.  The     *)
(* product is finite and explored completely, so there is no bound on length. *)
EXTENDS UrnRegex

CONSTANT RegexModes
VARIABLES mode, q, d
vars == <<mode, q, d>>

Dead == <<"dead", 0, "">>

Init == mode \in RegexModes /\ q = Start /\ d = Language[mode]
Next == \E c \in Byte :
          /\ d # Empty \/ q # Dead
          /\ mode' = mode
          /\ q' = IF q = Dead THEN Dead ELSE LET s == Step(mode, q, c) IN IF s.ok THEN s.q ELSE Dead
          /\ d' = D(d, c)
Spec == Init /\ [][Next]_vars

Same == Null(d) <=> (q # Dead /\ Finish(mode, q).ok)
=============================================================================
