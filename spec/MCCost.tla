------------------------------- MODULE MCCost -------------------------------
(* What parsing costs in the specification, for texts of every length: the    *)
(* control graph is finite, so bounds that hold for each of its transitions    *)
(* bound every run.  Reading a byte is one step with at most MaxMarks marks    *)
(* set; accepting copies parts that do not overlap (MCCover), and the normal   *)
(* form is put out by a transducer, byte for byte (UrnValues).  So             *)
(*     Work(t) <= (1 + MaxMarks) * Len(t) + MaxFinal + 2 * Len(t).             *)
(* TraceLib (C20) demands of the measured code what follows for large texts:   *)
(* eight times the text costs no more than a few times eight.                  *)
EXTENDS ParserGraph, FiniteSets

MaxMarks == 2
MaxFinal == 3

\* at most MaxMarks marks per byte, and one put
Marked == \A c \in Byte : LET s == Step(mode, q, c) IN s.ok => Cardinality(s.acts) <= MaxMarks
Ended  == LET e == Finish(mode, q) IN e.ok => Cardinality(e.acts) <= MaxFinal
\* no step without reading: the machine is deterministic and total on bytes
Total  == \A c \in Byte : LET s == Step(mode, q, c) IN s.ok \/ s.err \in ErrKinds
Puts   == \A k \in 0..2, c \in Byte : NormStep(k, c).put \in Byte /\ NormStep(k, c).to \in 0..2
ASSUME Puts
=============================================================================
