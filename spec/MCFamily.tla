------------------------------ MODULE MCFamily ------------------------------
(* The family of values.  A systematic set of URN values, each obtained in    *)
(* every way there is: parsed by a new machine, by a machine that was used    *)
(* and switched before, unmarshalled, composed; then copied, assigned to,     *)
(* normalized, in every order up to MaxOps calls.  A state is one value with  *)
(* the calls that lead to it.  TLC checks on each what the properties say of  *)
(* a single value and exports it; the harness obtains the same values from    *)
(* the code, compares them, and compares every two of them.                   *)
EXTENDS UrnValues, UrnGrammar, Json, SequencesExt

CONSTANT MaxOps

VARIABLES v,     \* the value
          at,    \* the slot it is in
          mode,  \* the mode it was parsed in, "" once it is something else
          hist   \* the calls

vars == <<v, at, mode, hist>>

----------------------------------------------------------------------------
(* Texts: every combination of spellings of the parts *)
sAB == <<97, 65>>  sAa == <<65, 97>>
Pre == { sURN, <<85, 82, 78>>, <<117, 82, 110>> }                  \* urn URN uRn
Idz == { <<97, 97>>, <<65, 97>>, <<97, 45, 49>> }                  \* aa Aa a-1
Ssz == { <<98>>, <<66>>, <<37, 97, 66>>, <<37, 65, 98>>,           \* b B %aB %Ab
         <<37, 65, 98, 66>>, <<37, 97, 98, 66>>, <<37, 52, 70>>,   \* %AbB %abB %4F
         <<66, 37, 70, 102, 37, 66, 66, 58, 66>> }                 \* B%Ff%BB:B
Rz == { <<114>>, <<37, 65, 98>> }  Qz == { <<113>>, <<81, 37, 65, 98>> }   Fz == { <<102>>, <<37, 65, 66>> }
Comp == { <<>> }
        \cup { <<63, 43>> \o r : r \in Rz } \cup { <<63, 61>> \o q : q \in Qz } \cup { <<35>> \o f : f \in Fz }
        \cup { <<63, 43, 114, 63, 61, 113>>, <<63, 43, 114, 35, 102>>, <<63, 61, 113, 35, 102>>,
               <<63, 43, 114, 63, 61, 113, 35, 102>>, <<35>>, <<63, 61, 113, 35>> }
Plains == { p \o <<58>> \o i \o <<58>> \o s \o c : p \in Pre, i \in Idz, s \in Ssz, c \in Comp }

sIETF == <<73, 69, 84, 70>>
Scimz == { p \o <<58>> \o sSCIM \o <<58>> \o ty \o <<58>> \o nm \o ot :
             p \in {sURN, <<85, 82, 78>>}, ty \in {sSchemas, sApi, sParam},
             nm \in {<<120>>, <<88, 49>>}, ot \in {<<>>, <<58, 98>>, <<58, 37, 65, 98, 66>>, <<58, 58>>} }
         \cup { sURN \o <<58>> \o sIETF \o SubSeq(sSCIM, 5, Len(sSCIM)) \o <<58>> \o sApi \o <<58>> \o nm :
             nm \in {<<120>>, <<88, 49>>} }

Some == { p \o <<58>> \o i \o <<58>> \o s \o c : p \in {sURN, <<85, 82, 78>>}, i \in {sAa}, s \in {<<66>>, <<37, 65, 98, 66>>},
                                                c \in {<<>>, <<63, 43, 114, 63, 61, 113, 35, 102>>} }

Texts == SetToSeq(Plains \cup Scimz)
T == DOMAIN Texts
\* what a machine did before: all components, then an error
Busy == sURN \o <<58, 122, 122, 58, 37, 65, 66, 122, 63, 43, 97, 63, 61, 98, 35, 99>>
TB == Len(Texts) + 1
TE == Len(Texts) + 2
AllTexts == Texts \o << Busy, sURN \o <<58, 122, 122, 58, 37, 65, 65, 63, 43, 97, 63, 61, 37>> >>
PR == [m \in Modes |-> [t \in T |-> Outcome(m, Texts[t])]]

IsScimText(t) == Texts[t] \in Scimz
Narrow(t) == IsScimText(t) \/ Texts[t] \in Some

CIds == { <<97, 97>>, <<65, 97>>, <<97>>, sSCIM, <<105, 101, 116, 102>>, <<>> }
CSss == { <<98>>, <<66>>, <<37, 97, 66>>, <<37, 65, 98, 66>>, sApi \o <<58, 120>>,
          <<112, 97, 114, 97, 109, 115, 58, 115, 99, 105, 109, 58>> \o sApi \o <<58, 120>>, <<>> }
SIds == { <<97, 97>>, <<66>>, <<>> }
SSss == { <<66>>, <<37, 65, 98, 66>>, <<37, 97, 98, 66>>, <<>> }
\* what could be taken for the SS of a SCIM URN
ScimSss == { sParam \o <<58, 121>>, sApi \o <<58, 120, 58, 37, 65, 66>>, sSchemas \o <<58, 120, 58, 98>> }

----------------------------------------------------------------------------
Make(val, m, calls) == v = val /\ mode = m /\ hist = calls /\ at = "s1"

InitParse == \E m \in Modes, t \in T :
   /\ PR[m][t].ok
   /\ \/ Make(PR[m][t].urn, m, << [op |-> "pparse", opts |-> <<m>>, t |-> t, s |-> "s1"] >>)
      \* a machine of another mode that parsed before, and failed before
      \/ \E k \in {"2141", "8141"}, b \in {TB, TE} :
           /\ Narrow(t)
           /\ Make(PR[m][t].urn, m,
               << [op |-> "new", m |-> "m1", opts |-> <<k>>],
                  [op |-> "mode", m |-> "m1", x |-> "8141"],
                  [op |-> "parse", m |-> "m1", t |-> b, s |-> "s2"],
                  [op |-> "mode", m |-> "m1", x |-> m],
                  [op |-> "parse", m |-> "m1", t |-> t, s |-> "s1"] >>)
InitJson == \E ty \in {"URN", "URN8141"}, t \in T :
   /\ Narrow(t) /\ PR[TypeMode(ty)][t].ok
   /\ Make(PR[TypeMode(ty)][t].urn, TypeMode(ty),
           << [op |-> "unm", ty |-> ty, t |-> t], [op |-> "take", ty |-> ty, d |-> "s1"] >>)
InitCompose == \E i \in CIds, s \in CSss :
   Make(Composed(i, s), "", << [op |-> "compose", id |-> i, ss |-> s, d |-> "s1"] >>)

Init == InitParse \/ InitJson \/ InitCompose

Calls == Len(hist) - (IF hist[1].op = "new" THEN 5 ELSE IF hist[1].op = "unm" THEN 2 ELSE 1)
Other == IF at = "s1" THEN "s2" ELSE "s1"
\* still the pointer that the receiver holds, which nobody assigns through here
Aliased == hist[1].op = "unm" /\ hist[1].ty = "URN8141" /\ \A i \in 3..Len(hist) : hist[i].op = "read"
Whole == v.id # <<>> /\ v.ss # <<>>

Add(c) == hist' = Append(hist, c)
Normalize == /\ Whole
             /\ v' = Norm(v) /\ mode' = "" /\ at' = Other
             /\ Add([op |-> "norm", s |-> at, d |-> Other])
Copy == /\ hist[Len(hist)].op # "copy"
        /\ UNCHANGED <<v, mode>> /\ at' = Other
        /\ Add([op |-> "copy", s |-> at, d |-> Other])
SetID == \E i \in SIds : /\ ~Aliased /\ v' = [v EXCEPT !.id = i] /\ mode' = "" /\ UNCHANGED at
                         /\ Add([op |-> "setid", s |-> at, id |-> i])
SetSS == \E s \in SSss \cup (IF v.scim # NoScim THEN ScimSss ELSE {}) : /\ ~Aliased /\ v' = [v EXCEPT !.ss = s] /\ mode' = "" /\ UNCHANGED at
                         /\ Add([op |-> "setss", s |-> at, ss |-> s])
Read == /\ hist[Len(hist)].op # "read"
        /\ UNCHANGED <<v, mode, at>>
        /\ Add([op |-> "read", s |-> at])

\* the whole product once; further calls from a part of it
Wide == hist[1].op = "pparse" /\ ~Narrow(hist[1].t)
Next == /\ Calls < (IF Wide THEN 1 ELSE MaxOps)
        /\ Normalize \/ (~Wide /\ (Copy \/ SetID \/ SetSS \/ Read))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What the properties say of one value *)

\* C07
NormOnce   == Whole => /\ Norm(Norm(v)) = Norm(v) /\ EqualV(v, Norm(v))
                       /\ Text(Norm(v)) = NormText(v)
NormParses == (Whole /\ mode # "") =>
                 LET o == Outcome(mode, NormText(v)) IN o.ok /\ o.urn.id = NormId(v.id) /\ o.urn.ss = NormSS(v.ss)
\* C04
RoundTrip  == mode # "" => LET o == Outcome(mode, Text(v)) IN o.ok /\ o.urn = v
\* C13
KindFits   == /\ mode # "" => v.kind = KindOf(mode)
              \* the view stays when the specific string is assigned
              /\ IsScim(v) => \E t \in T : IsScimText(t) /\ PR["7643"][t].ok /\ v.scim = PR["7643"][t].urn.scim
              /\ IsScim(v) <=> v.scim # NoScim
              /\ (IsScim(v) /\ mode # "") => Canon(v.scim) = SCIMHead \o v.ss
\* C21
TextFits   == /\ Text(v) = <<>> <=> ~Whole
              /\ Whole => \E p \in Pre : SubSeq(Text(v), 1, 3) = p
\* the normal forms are the values whose text is their own normal form
Fixed      == (Whole /\ v = Norm(v)) <=> (Whole /\ Text(v) = NormText(v) /\ v.pre = sURN /\ v.kind = "NONE" /\ v.scim = NoScim)

----------------------------------------------------------------------------
Emit == PrintT("VALUE " \o ToJson([hist |-> hist, at |-> at, v |-> Project(v),
                                   whole |-> Whole]))
Exported == Emit
ASSUME PrintT("TEXTS " \o ToJson(AllTexts))
=============================================================================
