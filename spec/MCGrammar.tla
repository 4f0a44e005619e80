----------------------------- MODULE MCGrammar -----------------------------
(* The machine of UrnParser against the declarative languages of UrnGrammar, *)
(* on every string stem . w . probe with w over a small alphabet up to a     *)
(* length: every part of a URN has its scenario.  Also what all properties   *)
(* of whole texts say about the specification: round trip, normal form,      *)
(* agreement of the modes.                                                   *)
EXTENDS UrnValues, UrnGrammar

CONSTANTS ScenarioMode,   \* "2141", "7643", "8141" or "all"
          Extra, Less     \* added to and taken from the depth of every scenario

VARIABLES sc, w
vars == <<sc, w>>

S(mode, stem, alpha, depth, probes) ==
  [mode |-> mode, stem |-> stem, alpha |-> alpha, depth |-> depth, probes |-> probes]
U  == sURN \o <<58>>
UA == U \o <<97, 97, 58>>           \* "urn:aa:"
E  == <<>>
NidAlpha == {117, 114, 78, 45, 48, 49, 98, 58, 37}    \* u r N - 0 1 b : %
CompAlpha == {97, 63, 43, 61, 35, 47, 37, 126}          \* a ? + = # / % ~

Scenarios ==
  << S("2141", E, {117, 85, 114, 78, 110, 58, 97, 0}, 5, {E, <<58, 97, 58, 97>>}),
     S("2141", U, NidAlpha, 5, {E, <<58, 97>>}),
     S("2141", U \o <<97, 58>>, {97, 65, 48, 37, 58, 45, 63, 35, 47, 126, 38, 39, 200}, 4, {E, <<97, 97>>}),
     S("7643", E, {117, 82, 78, 110, 58, 105}, 5, {E, sSCIM \o <<58>> \o sApi \o <<58, 97>>}),
     S("7643", U, {105, 101, 116, 58, 73}, 4, {E, SubSeq(sSCIM, 3, 16) \o <<58>> \o sApi \o <<58, 97>>}),
     S("7643", SCIMHead, {115, 97, 112, 105, 58}, 5, {E, <<58, 97>>, <<97, 109, 58, 97>>}),
     S("7643", SCIMHead \o sApi \o <<58>>, {97, 58, 37, 45, 57, 63, 126, 0}, 5, {E, <<97>>, <<58, 97>>}),
     S("8141", E, {117, 85, 114, 78, 110, 58, 97, 0}, 5, {E, <<97, 97, 58, 97>>}),
     S("8141", U, NidAlpha, 5, {E, <<58, 97>>, <<97, 58, 97>>}),
     S("8141", UA, {97, 37, 47, 126, 63, 35, 43, 64, 0}, 4, {E, <<97, 97>>}),
     S("8141", UA \o <<98, 63>>, CompAlpha, 5, {E}),
     S("8141", UA \o <<98, 63, 43, 99>>, CompAlpha, 5, {E, <<97, 97>>}),
     S("8141", UA \o <<98, 63, 61, 99>>, CompAlpha, 5, {E, <<97, 97>>}),
     S("8141", UA \o <<98, 63, 43, 99, 63, 61>>, CompAlpha, 4, {E, <<97, 97>>}),
     S("8141", UA \o <<98, 35>>, CompAlpha, 4, {E, <<97, 97>>}) >>

Init == /\ sc \in {i \in DOMAIN Scenarios : ScenarioMode = "all" \/ Scenarios[i].mode = ScenarioMode}
        /\ w = <<>>
Next == /\ Len(w) < Scenarios[sc].depth + Extra - Less
        /\ \E c \in Scenarios[sc].alpha : w' = Append(w, c)
        /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars

Text1(p) == Scenarios[sc].stem \o w \o p
M == Scenarios[sc].mode

Agrees(m, s) ==
  LET o == Outcome(m, s)  x == Split(m, s) IN
  /\ o.ok <=> x.ok
  /\ o.ok => /\ o.urn.pre = SubSeq(s, 1, 3)
             /\ o.urn.id = x.id /\ o.urn.ss = x.ss
             /\ o.urn.r = x.r /\ o.urn.q = x.q /\ o.urn.f = x.f
             /\ m = "7643" => /\ NameOf(o.urn.scim.ty) = x.ty
                              /\ o.urn.scim.nm = x.nm /\ o.urn.scim.ot = x.ot

\* C01 C02 C03: the machine is the grammar
Same == \A p \in Scenarios[sc].probes : Agrees(M, Text1(p))

\* C06: the column of a rejection lies within the text; at the end only if the
\* text is incomplete
ColumnIn == \A p \in Scenarios[sc].probes :
   LET s == Text1(p)  o == Outcome(M, s) IN ~o.ok => o.col \in -1..Len(s)

\* C04, C07: reassembly, normal form, by-position lowering, transducer
Reads(m, s) ==
  LET o == Outcome(m, s) IN
  o.ok => LET v == o.urn  t == Text(v)  n == Outcome(m, NormText(v)) IN
          /\ t = TrimHash(s)
          /\ Outcome(m, t).ok /\ Outcome(m, t).urn = v
          /\ o.norm = NormSS(v.ss) /\ Transduce(v.ss) = NormSS(v.ss)
          /\ NormSS(NormSS(v.ss)) = NormSS(v.ss)
          /\ n.ok /\ n.urn.id = NormId(v.id) /\ n.urn.ss = NormSS(v.ss)
          /\ m = "7643" => Canon(v.scim) = SCIMHead \o v.ss
Whole == \A p \in Scenarios[sc].probes : Reads(M, Text1(p))

\* C14: agreement of the modes
Bare(x) == x.r = <<>> /\ x.q = <<>> /\ x.f = <<>>
Cross(s) ==
  LET a == Split2141(s)  b == Split7643(s)  c == Split8141(s) IN
  /\ b.ok => a.ok /\ c.ok
  /\ a.ok /\ NID8141(a.id) => c.ok /\ c.id = a.id /\ c.ss = a.ss /\ Bare(c)
  /\ (c.ok /\ \A i \in DOMAIN s : s[i] # Hash) =>
       ((Bare(c) /\ (\A i \in DOMAIN c.ss : c.ss[i] \notin {Tilde, Amp, Slash}) /\ LowS(c.id) # sURN)
          => a.ok /\ a.id = c.id /\ a.ss = c.ss)
  /\ b.ok => LowS(b.id) \o <<Colon>> \o NormSS(b.ss) = LowS(a.id) \o <<Colon>> \o NormSS(a.ss)
Modes3 == \A p \in Scenarios[sc].probes : Cross(Text1(p))
=============================================================================
