------------------------------- MODULE Caches -------------------------------
(* A value that remembers.  ID and SS are fields that anyone assigns, so what *)
(* a value remembers of an earlier text (its normal form, its string form)    *)
(* may be used only while it is about the text there is now.  A design is a   *)
(* way to tell whether it is (Trust), and when it is remembered: as the value *)
(* is made ("eager"), or as it is first asked for ("lazy").                   *)
(*                                                                            *)
(* In the library's design the answer is always that of the text; TLC checks  *)
(* that on every pair of small texts, refutes the designs that trust too      *)
(* much, and confirms those that look too trusting and are not ("kin").       *)
(* Every pair is exported with the designs that it would show; the harness    *)
(* makes values of the first text and assigns the second, stretched to many   *)
(* lengths, in every part and by every way to make a value.                   *)
EXTENDS UrnValues, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Design,   \* Trust
          Fill,     \* "eager" or "lazy"
          Size      \* tokens of a text

Tokens == { <<97>>, <<65>>, <<49>>, <<37, 97, 66>>, <<37, 65, 98>>, <<37, 65, 66>> }   \* a A 1 %aB %Ab %AB
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN { <<>> } ELSE { w \o t : w \in Words(n - 1), t \in Tokens }
Words1 == UNION { Words(n) : n \in 1..Size }

Sum(s) == FoldLeft(LAMBDA a, c : a + c, 0, s)
Set(s) == { s[i] : i \in DOMAIN s }
Head1(s, k) == SubSeq(s, 1, IF Len(s) < k THEN Len(s) ELSE k)
Tail1(s, k) == SubSeq(s, IF Len(s) < k THEN 1 ELSE Len(s) - k + 1, Len(s))
Starts(w, s) == Len(w) <= Len(s) /\ SubSeq(s, 1, Len(w)) = w
Ends(w, s) == Len(w) <= Len(s) /\ SubSeq(s, Len(s) - Len(w) + 1, Len(s)) = w
\* where there are capitals of escapes
Capitals(s) == { i \in DOMAIN s : NormSS(s)[i] # s[i] }

\* is what is remembered of the text "was" used for the text "now"
Trust(d, was, now) ==
  CASE d = "same"   -> was = now
    [] d = "kin"    -> was = now \/ NormSS(was) = NormSS(now)
    [] d = "always" -> TRUE
    [] d = "length" -> Len(was) = Len(now)
    [] d = "head"   -> Head1(was, 2) = Head1(now, 2)
    [] d = "tail"   -> Tail1(was, 2) = Tail1(now, 2)
    [] d = "ends"   -> Len(was) = Len(now) /\ was[1] = now[1] /\ was[Len(was)] = now[Len(now)]
    [] d = "starts" -> Starts(was, now)
    [] d = "within" -> Starts(now, was)
    [] d = "ending" -> Ends(was, now)
    [] d = "sum"    -> Sum(was) = Sum(now) /\ Len(was) = Len(now)
    [] d = "bytes"  -> Set(was) = Set(now) /\ Len(was) = Len(now)
    [] d = "fold"   -> LowS(was) = LowS(now)
    [] d = "marks"  -> Len(was) = Len(now) /\ Capitals(was) = Capitals(now)
    [] d = "nomark" -> Capitals(was) = {} /\ Capitals(now) = {} /\ Len(was) = Len(now)
Right == {"same", "kin"}
Designs == {"same", "kin", "always", "length", "head", "tail", "ends", "starts", "within", "ending", "sum", "bytes", "fold", "marks", "nomark"}
Wrong == Designs \ Right

----------------------------------------------------------------------------
VARIABLES now,    \* the text there is
          memo,   \* [of, norm], or none
          first,  \* the text that the value was made of
          calls
vars == <<now, memo, first, calls>>

None == [of |-> <<>>, norm |-> <<>>, any |-> FALSE]
About(t) == [of |-> t, norm |-> NormSS(t), any |-> TRUE]
Trusted == memo.any /\ Trust(Design, memo.of, now)
Answer == IF Trusted THEN memo.norm ELSE NormSS(now)

Init == /\ now \in Words1 /\ first = now
        /\ memo = IF Fill = "eager" THEN About(now) ELSE None
        /\ calls = <<"make">>
Ask == /\ Len(calls) < 4 /\ calls[Len(calls)] # "ask"
       /\ memo' = IF Fill = "lazy" /\ ~Trusted THEN About(now) ELSE memo
       /\ calls' = Append(calls, "ask") /\ UNCHANGED <<now, first>>
Assign == /\ ~\E i \in DOMAIN calls : calls[i] = "assign"
          /\ now' \in Words1
          /\ calls' = Append(calls, "assign") /\ UNCHANGED <<memo, first>>
Next == Ask \/ Assign
Spec == Init /\ [][Next]_vars

\* C07, C08 (equality is that of the answers), C21 (with the identity for NormSS)
Faithful == Answer = NormSS(now)

----------------------------------------------------------------------------
\* the pairs and the designs they show, whatever the design
Shown(was, is) == { d \in Wrong : Trust(d, was, is) /\ NormSS(was) # NormSS(is) }
Export == (calls = <<"make", "assign">> \/ (Fill = "lazy" /\ calls = <<"make", "ask", "assign">>)) =>
   LET s == Shown(first, now) IN
   s # {} => PrintT("PAIR " \o ToJson([was |-> first, now |-> now, shows |-> s, asked |-> (Len(calls) = 3)]))
\* every wrong design is shown by a pair
ASSUME \A d \in Wrong : \E w, n \in Words(2) \cup Words(3) : d \in Shown(w, n)
=============================================================================
