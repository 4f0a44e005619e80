---------------------------- MODULE ParserGraph ----------------------------
(* The complete control graph of UrnParser: every reachable control state   *)
(* of every mode x every byte value.  Exported row by row as JSON, for the  *)
(* conformance tests; and the place where facts about ALL inputs, of every  *)
(* length, are decided, because the graph is finite and explored in full.   *)
EXTENDS UrnValues, Json

VARIABLES mode, q
vars == <<mode, q>>

Init == mode \in Modes /\ q = Start
Read(c) == LET s == Step(mode, q, c) IN s.ok /\ q' = s.q /\ mode' = mode
Next == \E c \in Byte : Read(c)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* A completion of every control state that is not doomed: a byte string    *)
(* that leads it to acceptance.  So whatever is rejected elsewhere is       *)
(* rejected at the first byte that no URN continues with.                   *)
a1 == <<97>>
Rest(m) == CASE m = "2141" -> <<58, 97>>
             [] m = "8141" -> <<58, 97>>
             [] m = "7643" -> <<58>> \o sApi \o <<58, 97>>
Fresh(m) == CASE m = "2141" -> <<97>> \o Rest(m)
              [] m = "8141" -> <<97, 97>> \o Rest(m)
              [] m = "7643" -> sSCIM \o Rest(m)

Completion(m, s) ==
  CASE s[1] = "P0" -> sURN \o <<58>> \o Fresh(m)
    [] s[1] = "P1" -> SubSeq(sURN, 2, 3) \o <<58>> \o Fresh(m)
    [] s[1] = "P2" -> SubSeq(sURN, 3, 3) \o <<58>> \o Fresh(m)
    [] s[1] = "P3" -> <<58>> \o Fresh(m)
    [] s[1] = "N0" -> Fresh(m)
    [] s[1] = "N" ->
         IF m = "2141" THEN IF s[3] = "urn" THEN a1 \o Rest(m) ELSE Rest(m)
         ELSE IF s[2] < 2 THEN a1 \o Rest(m)
         ELSE IF s[3] = "urn-" THEN <<49>> \o Rest(m)
         ELSE IF s[3] = "-" THEN a1 \o Rest(m) ELSE Rest(m)
    [] s[1] = "L"  -> SubSeq(sSCIM, s[2] + 1, Len(sSCIM)) \o Rest(m)
    [] s[1] = "T0" -> sApi \o <<58, 97>>
    [] s[1] = "T"  -> SubSeq(TypeWords[s[3]], s[2] + 1, Len(TypeWords[s[3]])) \o <<58, 97>>
    [] s[1] \in {"M0", "O0", "S0", "R0", "C0", "H2", "OH2", "RH2", "CH2", "FH2"} -> a1
    [] s[1] \in {"H1", "OH1", "RH1", "CH1", "FH1"} -> <<97, 97>>
    [] s[1] = "SQ" -> <<43, 97>>
    [] s[1] \in {"RQP", "CQE"} -> <<Slash>>
    [] OTHER -> <<>>

\* "?" at the start of a component is accepted by the machine only to name
\* the error better: doomed as well, but rejected one byte later at most
Dead == Doomed \cup {"R0Q", "C0Q"}

RECURSIVE Walk(_, _, _)
Walk(m, s, w) == IF w = <<>> THEN Finish(m, s)
                 ELSE LET t == Step(m, s, Head(w)) IN IF t.ok THEN Walk(m, t.q, Tail(w)) ELSE t

Live == q[1] \notin Dead => Walk(mode, q, Completion(mode, q)).ok

DoomedIsDead ==
  /\ q[1] \in Doomed => ~Finish(mode, q).ok /\ \A c \in Byte : ~Step(mode, q, c).ok
  /\ q[1] \in {"R0Q", "C0Q"} =>
       /\ ~Finish(mode, q).ok
       /\ \A c \in Byte : LET s == Step(mode, q, c) IN s.ok => s.q[1] \in Doomed

\* Exactly one outcome per state and byte, every error of a known kind,
\* columns on the byte read except for the documented deviations
Columns ==
  /\ \A c \in Byte : LET s == Step(mode, q, c) IN
        ~s.ok => s.err \in ErrKinds /\ s.off = (IF s.err = "informal" THEN -1 ELSE 0)
  /\ LET e == Finish(mode, q) IN
        ~e.ok => e.err \in ErrKinds /\ e.off = (IF e.err = "scimothereof" THEN -1 ELSE 0)

\* Marks are known, and acceptance closes what it must
MarksOK ==
  /\ \A c \in Byte : LET s == Step(mode, q, c) IN s.ok => s.acts \subseteq (Marks \cup {"low"})
  /\ LET e == Finish(mode, q) IN e.ok => e.acts \subseteq Marks

----------------------------------------------------------------------------
(* Export: one line per control state, bytes grouped by what they do        *)
Row ==
  LET res == {Step(mode, q, c) : c \in Byte}
  IN [mode |-> mode, q |-> q, eof |-> Finish(mode, q),
      row |-> {[do |-> r, bytes |-> {c \in Byte : Step(mode, q, c) = r}] : r \in res}]
Emit == PrintT("ROW " \o ToJson(Row))
ExportErr == PrintT("ERR " \o ToJson(ErrText))
ASSUME ExportErr
\* the value algebra, as tables: ASCII lowering, the transducer of the normal
\* form, the SCIM words
ExportVal == PrintT("VAL " \o ToJson(
  [low  |-> [c \in 1..256 |-> LowB(c - 1)],
   norm |-> [k \in 1..3 |-> [c \in 1..256 |-> NormStep(k - 1, c - 1)]],
   types |-> TypeWords, head |-> SCIMHead, urn |-> sURN]))
ASSUME ExportVal
=============================================================================
