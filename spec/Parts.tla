-------------------------------- MODULE Parts --------------------------------
(* A value of two parts that remembers.  What was computed of one value (its  *)
(* text, its normal form) is used again for another only when both parts are  *)
(* the same: not when they are the same joined, not when one of them is, nor  *)
(* when they are the other way round.  The parts stand for identifier and     *)
(* specific string, SCIM name and rest, specific string and component,        *)
(* component and component.                                                   *)
(*                                                                            *)
(* TLC checks the library's design, refutes the others, and exports every     *)
(* pair of values with the designs that it would show; the harness gives them *)
(* one after the other to one value, one receiver, one machine, the library.  *)
EXTENDS UrnValues, FiniteSets, TLC, Json

CONSTANTS Design, Size

Letters == { 97, 65, 98, 49 }   \* a A b 1
Words == UNION { [1..n -> Letters] : n \in 1..Size }
Values == [ a : Words, b : Words ]

Swapped(v) == [ a |-> v.b, b |-> v.a ]
Folded(v) == [ a |-> LowS(v.a), b |-> LowS(v.b) ]
Lengths(v) == << Len(v.a), Len(v.b) >>

\* is what is remembered of the value "was" used for the value "now"
Trust(d, was, now) ==
  CASE d = "both"    -> was = now
    [] d = "joined"  -> was.a \o was.b = now.a \o now.b
    [] d = "first"   -> was.a = now.a
    [] d = "second"  -> was.b = now.b
    [] d = "either"  -> was.a = now.a \/ was.b = now.b
    [] d = "swapped" -> was = now \/ was = Swapped(now)
    [] d = "lengths" -> Lengths(was) = Lengths(now)
    [] d = "total"   -> Len(was.a) + Len(was.b) = Len(now.a) + Len(now.b) /\ was.a[1] = now.a[1]
    [] d = "folded"  -> Folded(was) = Folded(now)
Wrong == { "joined", "first", "second", "either", "swapped", "lengths", "total", "folded" }

----------------------------------------------------------------------------
VARIABLES now,   \* the value there is
          was,   \* the value that was given before
          memo,  \* the value that something is remembered of
          calls
vars == <<now, was, memo, calls>>

Init == now \in Values /\ was = now /\ memo = <<>> /\ calls = <<>>
\* the text (or the normal form, the outcome) is asked for, and remembered
Ask == /\ calls \in { <<>>, <<"ask", "give">> }
       /\ memo' = IF memo # <<>> /\ Trust(Design, memo[1], now) THEN memo ELSE <<now>>
       /\ calls' = Append(calls, "ask") /\ UNCHANGED <<now, was>>
\* another value in its place: one part assigned, or both, or all given anew
Give == /\ calls = <<"ask">>
        /\ now' \in Values /\ now' # now
        /\ was' = now /\ calls' = Append(calls, "give") /\ UNCHANGED memo
Next == Ask \/ Give
Spec == Init /\ [][Next]_vars

\* what is remembered after asking is what was asked for
Faithful == calls # <<>> /\ calls[Len(calls)] = "ask" => memo = <<now>>

Shown == { d \in Wrong : Trust(d, was, now) }
\* everything that shows a design that joins, swaps or folds, some of the others
Rare == Shown \cap { "joined", "swapped", "folded" } # {} \/ Cardinality(Shown) > 2
Export == calls = <<"ask", "give">> /\ Rare =>
   PrintT("PARTS " \o ToJson([was |-> was, now |-> now, shows |-> Shown]))
ASSUME \A d \in Wrong : \E v, w \in [ a : Words, b : { u \in Words : Len(u) < 3 } ] : v # w /\ Trust(d, v, w)
=============================================================================
