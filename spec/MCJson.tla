------------------------------- MODULE MCJson -------------------------------
(* JSON texts near the ones that unmarshal: a few edits away, with tokens that *)
(* other notations for strings allow and JSON does not, or that stand for      *)
(* something else in JSON.  TLC says of each whether it is a JSON string, what *)
(* it decodes to and which of the three types take it; the harness unmarshals  *)
(* it into each, directly and through encoding/json.                           *)
EXTENDS UrnValues, UrnGrammar, JsonText, Json

CONSTANTS MaxEdits, Wide

VARIABLES t, n, b
vars == <<t, n, b>>

Q(s) == <<34>> \o s \o <<34>>
Aab == <<117, 114, 110, 58, 97, 97, 58, 98>>                         \* urn:aa:b
Bases == << Q(Aab), Q(sURN \o <<58>> \o sSCIM \o <<58>> \o sApi \o <<58, 120>>),
            Q(<<85, 82, 78, 58, 97, 97, 58, 37, 65, 98, 63, 43, 114, 63, 61, 113, 35, 102>>),   \* URN:aa:%Ab?+r?=q#f
            <<34, 92, 117, 48, 48, 55, 53>> \o SubSeq(Aab, 2, 8) \o <<34>>,                      \* \u0075rn:aa:b
            <<110, 117, 108, 108>>, Q(<<>>) >>
\* how many edits each base is worth
Worth(i) == IF i = 1 THEN MaxEdits ELSE IF i \in {5, 6} THEN 2 ELSE MaxEdits - 1

Small == { <<34>>, <<39>>, <<92>>, <<32>>, <<0>>, <<92, 117, 48, 48, 54, 50>>, <<92, 34>>, <<98>>, <<58>> }
Large == Small \cup
  { <<96>>, <<92, 120, 54, 50>>, <<92, 49, 52, 50>>, <<92, 85, 48, 48, 48, 48, 48, 48, 54, 50>>, <<92, 85, 48, 48, 54, 50>>,
    <<92, 117, 123, 54, 50, 125>>,                                     \* ` \x62 \142 \U00000062 \U0062 \u{62}
    <<92, 47>>, <<92, 98>>, <<92, 110>>, <<92, 97>>, <<92, 118>>, <<92, 48>>, <<92, 39>>, <<92, 101>>, <<92, 10>>, <<92, 92>>,
    <<92, 117, 48, 48, 101, 57>>, <<92, 117, 48, 48, 50, 53>>, <<92, 117, 48, 48, 54>>, <<92, 117, 48, 48, 71, 50>>,
    <<92, 117, 48, 48, 52, 66>>, <<92, 117, 48, 48, 52, 98>>, <<92, 117, 48, 48, 48, 48>>,
    <<92, 117, 100, 56, 51, 100, 92, 117, 100, 101, 48, 48>>, <<92, 117, 100, 56, 48, 48>>, <<92, 117, 100, 99, 48, 48>>,
    <<92, 117, 102, 101, 102, 102>>, <<92, 117, 50, 48, 50, 56>>,      \* \ufeff \u2028
    <<239, 187, 191>>, <<254, 255>>, <<194, 160>>, <<226, 128, 139>>, <<226, 128, 156>>, <<226, 128, 157>>, <<195, 169>>,
    <<255>>, <<194>>, <<192, 162>>, <<239, 188, 130>>,                 \* overlong quote, full-width quote
    <<9>>, <<10>>, <<13>>, <<11>>, <<12>>, <<8>>, <<31>>, <<127>>, <<27>>, <<26>>,
    <<44>>, <<59>>, <<91>>, <<93>>, <<123>>, <<125>>, <<40>>, <<41>>, <<47, 47, 120, 10>>, <<47, 42, 42, 47>>, <<35>>, <<43>>, <<60>>,
    <<37, 54, 50>>, <<38, 97, 109, 112, 59>>, <<38, 35, 57, 56, 59>>, <<36>>, <<48>>, <<45>>, <<110, 117, 108, 108>>, <<34, 34>>, <<34, 43, 34>> }

Put(s, i, x) == SubSeq(s, 1, i) \o x \o SubSeq(s, i + 1, Len(s))
Drop(s, i, k) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + k, Len(s))

Init == \E i \in DOMAIN Bases : b = i /\ t = Bases[i] /\ n = 0
Next ==
  /\ n < Worth(b) /\ n' = n + 1 /\ b' = b
  /\ LET X == IF n = 0 \/ Wide THEN Large ELSE Small IN
     \/ \E i \in 0..Len(t), x \in X : t' = Put(t, i, x)
     \/ \E i \in 1..Len(t), x \in X : t' = Put(Drop(t, i, 1), i - 1, x)
     \/ \E i \in 1..Len(t) : t' = Drop(t, i, 1)
     \/ \E i \in 1..Len(t) : t' = SubSeq(t, 1, i)
Spec == Init /\ [][Next]_vars
View == t

JTypes == {"URN", "URN8141", "SCIM"}
Taken(d, ty) == d.ok /\ Outcome(TypeMode(ty), d.str).ok

----------------------------------------------------------------------------
(* What holds of the decoding itself *)
D == JDecode(t)
\* white space around changes nothing
Spaces == JDecode(<<32, 10>> \o t \o <<13, 9>>) = D
\* a string and nothing else: cut short it is none, and with anything behind it is none
WholeText == D.ok => \A i \in 1..Len(t) - 1 : (\E k \in i + 1..Len(t) : t[k] \notin JWs) => ~JDecode(SubSeq(t, 1, i)).ok
\* what a type takes has only the bytes of the grammar
Ascii == \A ty \in JTypes : Taken(D, ty) => \A i \in DOMAIN D.str : D.str[i] \in 33..126
\* marshalled again, it is a string with the same text (no byte of the grammar needs an escape)
Again == (\E ty \in JTypes : Taken(D, ty)) => JDecode(Q(D.str)) = D
\* all that is taken in mode 7643 is a URN
Less == Taken(D, "SCIM") => Taken(D, "URN")

Emit == PrintT("JSON " \o ToJson([j |-> t, ok |-> D.ok, s |-> IF D.ok THEN D.str ELSE <<>>,
                                  urn |-> Taken(D, "URN"), e |-> Taken(D, "URN8141"), c |-> Taken(D, "SCIM")]))
=============================================================================
