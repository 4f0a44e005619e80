------------------------------- MODULE MCScim -------------------------------
(* SCIM types and values (C16).  Two models:                                  *)
(*   "types"  texts within MaxSteps edits of the three names;                 *)
(*   "values" a SCIM value that the caller composes, assigns to, unmarshals   *)
(*            over, and takes from parsed URNs.                               *)
(* Every state is exported and obtained from the code.                        *)
EXTENDS UrnValues, UrnGrammar, Json

CONSTANTS Which, MaxSteps

VARIABLES t,      \* a text
          c,      \* a SCIM value
          hist    \* the calls
vars == <<t, c, hist>>

----------------------------------------------------------------------------
(* texts near the names *)
Near == {0, 32, 58, 65, 83, 77, 97, 101, 104, 105, 109, 112, 114, 115, 239}
Edits(s) ==
  {s} \cup { SubSeq(s, 1, i) \o <<b>> \o SubSeq(s, i + 1, Len(s)) : i \in 0..Len(s), b \in Near }
      \cup { SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) : i \in DOMAIN s }
      \cup { [s EXCEPT ![i] = b] : i \in DOMAIN s, b \in Near }
      \cup { [s EXCEPT ![i] = IF @ \in 97..122 THEN @ - 32 ELSE @] : i \in DOMAIN s }
      \cup { s \o TypeWords[w] : w \in TypeNames }
Names == {TypeWords[w] : w \in TypeNames}

\* one to one: a type is found by its name and by nothing else
OneToOne == /\ \A w \in TypeNames : TypeOf(NameOf(w)) = w
            /\ NameOf(TypeOf(t)) = (IF t \in Names THEN t ELSE <<>>)
            /\ TypeOf(t) = "unsupported" <=> t \notin Names

----------------------------------------------------------------------------
(* values *)
Unsup == "unsupported"
Tys == TypeNames \cup {Unsup}
Nms == { <<>>, <<120>>, <<88, 49>>, <<97, 45, 98>>, <<97, 58, 98>>, <<37, 65, 98>>, sApi, <<195, 169>>, <<120, 32>> }
Ots == { <<>>, <<98>>, <<58>>, <<37, 65, 98>>, <<98, 58, 99>>, <<37>>, <<37, 52>>, <<98, 32>>, <<47>>, <<126>>,
         <<37, 122, 90, 44, 39>>, <<63, 43, 114>>, <<35>>, <<98, 58>> }
Full == SCIMHead \o sSchemas \o <<58, 120, 89>>
Unms == << Full, Full \o <<58, 37, 65, 98>>, <<85, 82, 78>> \o SubSeq(SCIMHead, 4, Len(SCIMHead)) \o sParam \o <<58, 48>>,
           Full \o <<58>>, SCIMHead \o <<58, 120>>, SubSeq(Full, 1, 9) \o <<88>>, sURN \o <<58, 97, 58, 98>>, <<>> >>
TX == DOMAIN Unms
O(i) == Outcome("7643", Unms[i])
Blank == [ty |-> Unsup, nm |-> <<>>, ot |-> <<>>]

ScimParses(x) == /\ x.ty \in TypeNames /\ Len(x.nm) > 0 /\ \A i \in DOMAIN x.nm : x.nm[i] \in Alnum
                 /\ x.ot = <<>> \/ Made(x.ot, Sss)
Back(x) == Outcome("7643", Canon(x))
\* the canonical text gives the three parts again exactly when they are well formed
Faithful == Which = "values" => LET o == Back(c) IN
   ScimParses(c) <=> /\ o.ok /\ o.urn.scim.ty = c.ty /\ o.urn.scim.nm = c.nm /\ o.urn.scim.ot = c.ot
\* and what parses is the canonical text of what it gives
Canonical == Which = "values" => LET o == Back(c) IN
   o.ok => /\ Canon(o.urn.scim) = Canon(c)
           /\ SCIMHead \o o.urn.ss = Canon(c)
\* different well-formed parts have different texts
ASSUME LET good == { x \in [ty : TypeNames, nm : Nms, ot : Ots] : ScimParses(x) }
       IN Cardinality({Canon(x) : x \in good}) = Cardinality(good)

Add(r) == hist' = Append(hist, r) /\ UNCHANGED t
Values ==
  \/ \E y \in Tys : c' = [c EXCEPT !.ty = y] /\ Add([op |-> "ty", ty |-> y])
  \/ \E n \in Nms : c' = [c EXCEPT !.nm = n] /\ Add([op |-> "nm", id |-> n])
  \/ \E s \in Ots : c' = [c EXCEPT !.ot = s] /\ Add([op |-> "ot", ss |-> s])
  \/ \E i \in TX : c' = (IF O(i).ok THEN O(i).urn.scim ELSE c) /\ Add([op |-> "unm", t |-> i, ok |-> O(i).ok])
  \/ \E i \in TX : O(i).ok /\ c' = O(i).urn.scim /\ Add([op |-> "view", t |-> i])
  \* through its own JSON
  \/ c' = (IF Back(c).ok THEN Back(c).urn.scim ELSE c) /\ Add([op |-> "json", ok |-> Back(c).ok])

Init == /\ hist = <<>>
        /\ c = Blank
        /\ t \in IF Which = "types" THEN Names ELSE {<<>>}
Next == /\ Len(hist) < MaxSteps
        /\ IF Which = "types" THEN t' \in Edits(t) /\ UNCHANGED c /\ hist' = Append(hist, [op |-> "edit"])
           ELSE Values
Spec == Init /\ [][Next]_vars

View == IF Which = "types" THEN <<t>> ELSE <<c>>
TypeOK == c.ty \in Tys

----------------------------------------------------------------------------
Emit ==
  IF Which = "types" THEN PrintT("TYPE " \o ToJson([t |-> t, ty |-> TypeOf(t)]))
  ELSE PrintT("SCIM " \o ToJson([hist |-> hist', c |-> [ty |-> c'.ty, nm |-> c'.nm, ot |-> c'.ot, canon |-> Canon(c')],
                                 back |-> LET o == Back(c') IN
                                          IF o.ok THEN [ok |-> TRUE, ty |-> o.urn.scim.ty, nm |-> o.urn.scim.nm, ot |-> o.urn.scim.ot]
                                          ELSE [ok |-> FALSE]]))
EmitTypes == Which = "types" => Emit
EmitValues == Which = "values" => Emit
ASSUME PrintT("TEXTS " \o ToJson(Unms))
=============================================================================
