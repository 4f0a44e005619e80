------------------------------ MODULE Library ------------------------------
(* The library as a caller meets it: machines, URN values in slots, buffers  *)
(* of bytes that the caller owns.  One action per call of the public API.    *)
(*                                                                           *)
(* The configurations (MCLib_*.cfg) choose the texts and the actions; every  *)
(* transition is exported with a shortest history leading to it, and         *)
(* replayed in the code.                                                     *)
EXTENDS UrnValues, UrnGrammar, Json

CONSTANTS
  Mach,        \* machine names
  Slot,        \* slots for *URN
  Scenario,    \* which texts and actions
  MaxDepth     \* how many calls

VARIABLES
  mach,        \* machine -> [mode, err], or Nil before it exists
  vals,        \* slot -> value, or Nil
  recv,        \* receivers of unmarshalling: [URN |-> v, E |-> v/Nil, SCIM |-> c]
  hist,        \* the calls so far (not part of the VIEW)
  last         \* the last call with its arguments and expected results

vars == <<mach, vals, recv, hist, last>>
core == <<mach, vals, recv>>

Nil == [nil |-> TRUE]

----------------------------------------------------------------------------
(* Texts.  Chosen so that they disagree in every way the properties speak    *)
(* of: case of prefix, ID and escapes, components, modes, errors of every    *)
(* kind, and one per final control state.                                    *)

U == sURN \o <<58>>                            \* "urn:"
Texts ==
  CASE Scenario = "life" -> <<
      U \o <<97, 58, 98>>,                                  \* 1 urn:a:b
      U \o <<97, 97, 58, 98, 63, 43, 114, 63, 61, 113, 35, 102>>, \* 2 urn:aa:b?+r?=q#f
      U \o sSCIM \o <<58, 97, 112, 105, 58, 120, 58, 37, 65, 98>>,\* 3 urn:ietf:params:scim:api:x:%Ab
      <<85, 82, 78, 58, 65, 66, 58, 37, 65, 66>>,           \* 4 URN:AB:%AB
      U \o <<97, 97, 58, 98, 63>>,                          \* 5 urn:aa:b?
      <<117, 120>>,                                         \* 6 ux
      <<>>,                                                 \* 7
      U \o sSCIM \o <<58, 97, 112, 105, 58, 120, 58>>,      \* 8 truncated SCIM rest
      U \o <<97, 97, 58, 98, 63, 43, 114, 63, 43, 113>> >>  \* 9 second ?+
    [] Scenario = "vals" -> <<
      U \o <<97, 97, 58, 98>>,                              \* 1 urn:aa:b
      <<85, 82, 78, 58, 65, 65, 58, 98>>,                   \* 2 URN:AA:b
      U \o <<97, 97, 58, 37, 65, 98, 66>>,                  \* 3 urn:aa:%AbB
      U \o <<97, 65, 58, 37, 97, 66, 66>>,                  \* 4 urn:aA:%aBB
      U \o <<97, 97, 58, 98, 63, 43, 114, 63, 61, 113, 35, 102>>, \* 5 urn:aa:b?+r?=q#f
      U \o sSCIM \o <<58, 97, 112, 105, 58, 120>>,          \* 6 urn:ietf:params:scim:api:x
      U \o sSCIM \o <<58, 97, 112, 105, 58, 120, 58, 37, 65, 66>> >>
    [] Scenario = "json" -> <<
      U \o <<97, 97, 58, 98>>,
      U \o <<97, 97, 58, 37, 65, 98, 63, 43, 114, 63, 61, 113, 35, 102>>,
      <<85, 114, 110, 58, 65, 65, 58, 37, 65, 66>>,
      U \o sSCIM \o <<58, 97, 112, 105, 58, 120>>,
      U \o sSCIM \o <<58, 115, 99, 104, 101, 109, 97, 115, 58, 121, 58, 37, 65, 66>>,
      U \o <<97>>,
      <<>> >>
    [] Scenario = "own" -> <<
      U \o sSCIM \o <<58, 97, 112, 105, 58, 120, 58, 37, 65, 98>>,   \* urn:ietf:params:scim:api:x:%Ab
      U \o <<97, 65, 58, 37, 65, 98, 63, 43, 114, 63, 61, 113>> >> \* urn:aA:%Ab?+r?=q

T == DOMAIN Texts
\* every parse there can be, once
PR == [m \in Modes |-> [t \in T |-> Outcome(m, Texts[t])]]

Opt == {"2141", "7643", "8141", "default", "other"}
Ids == << <<97, 97>>, <<65, 98>> >>                  \* "aa", "Ab"
Sss2 == << <<98>>, <<37, 65, 98, 66>>, <<37, 97, 98, 66>> >> \* "b", "%AbB", "%abB"

Res(o) == IF o.ok THEN [ok |-> TRUE, urn |-> o.urn]
          ELSE [ok |-> FALSE, err |-> ErrString(o.err, o.col)]

\* Conjoin after the primed state variables are known
Do(rec) ==
  /\ last' = rec
  /\ hist' = Append(hist, rec)

----------------------------------------------------------------------------
Init == /\ mach = [m \in Mach |-> Nil]
        /\ vals = [s \in Slot |-> Nil]
        /\ recv = [URN |-> Zero, URN8141 |-> Nil, SCIM |-> NoScim]
        /\ hist = <<>> /\ last = [op |-> "none"]

\* m := NewMachine(options...)
New(m, opts) ==
  /\ mach' = [mach EXCEPT ![m] = [mode |-> LastMode(opts), err |-> ""]]
  /\ UNCHANGED <<vals, recv>>
  /\ Do([op |-> "new", m |-> m, opts |-> opts])

SetMode(m, x) ==
  /\ mach[m] # Nil
  /\ mach' = [mach EXCEPT ![m].mode = ModeOf(x)]
  /\ UNCHANGED <<vals, recv>>
  /\ Do([op |-> "mode", m |-> m, x |-> x])

\* Whatever happened before, the outcome is the one of the mode in force
MParse(m, t, s) ==
  /\ mach[m] # Nil
  /\ LET o == PR[mach[m].mode][t] IN
     /\ mach' = [mach EXCEPT ![m].err = IF o.ok THEN "" ELSE ErrString(o.err, o.col)]
     /\ vals' = [vals EXCEPT ![s] = IF o.ok THEN o.urn ELSE Nil]
     /\ Do([op |-> "parse", m |-> m, t |-> t, s |-> s, res |-> Res(o)])
  /\ UNCHANGED recv

PParse(opts, t, s) ==
  LET o == PR[LastMode(opts)][t] IN
  /\ vals' = [vals EXCEPT ![s] = IF o.ok THEN o.urn ELSE Nil]
  /\ UNCHANGED <<mach, recv>>
  /\ Do([op |-> "pparse", opts |-> opts, t |-> t, s |-> s, res |-> Res(o)])

Normalize(s, d) ==
  /\ vals[s] # Nil /\ vals[s] # Zero
  /\ vals' = [vals EXCEPT ![d] = Norm(vals[s])]
  /\ UNCHANGED <<mach, recv>>
  /\ Do([op |-> "norm", s |-> s, d |-> d])

Compose(i, k, d) ==
  /\ vals' = [vals EXCEPT ![d] = Composed(Ids[i], Sss2[k])]
  /\ UNCHANGED <<mach, recv>>
  /\ Do([op |-> "compose", id |-> Ids[i], ss |-> Sss2[k], d |-> d])

SetID(s, i) ==
  /\ vals[s] # Nil /\ vals' = [vals EXCEPT ![s].id = Ids[i]]
  /\ UNCHANGED <<mach, recv>>
  /\ Do([op |-> "setid", s |-> s, id |-> Ids[i]])

SetSS(s, k) ==
  /\ vals[s] # Nil /\ vals' = [vals EXCEPT ![s].ss = Sss2[k]]
  /\ UNCHANGED <<mach, recv>>
  /\ Do([op |-> "setss", s |-> s, ss |-> Sss2[k]])

\* the caller changes the SCIM value that s.SCIM() points to
View2 == [ty |-> "param", nm |-> <<122, 122>>, ot |-> <<37, 90, 122>>]
SetView(s) ==
  /\ vals[s] # Nil /\ IsScim(vals[s])
  /\ vals' = [vals EXCEPT ![s].scim = View2]
  /\ UNCHANGED <<mach, recv>>
  /\ Do([op |-> "setview", s |-> s, ty |-> View2.ty, id |-> View2.nm, ss |-> View2.ot])

\* d := a copy of the struct behind s
Copy(s, d) ==
  /\ s # d /\ vals[s] # Nil /\ vals' = [vals EXCEPT ![d] = vals[s]]
  /\ UNCHANGED <<mach, recv>>
  /\ Do([op |-> "copy", s |-> s, d |-> d])

Equal(s, x) ==
  /\ vals[s] # Nil
  /\ UNCHANGED core
  /\ Do([op |-> "equal", s |-> s, x |-> x,
         res |-> vals[x] # Nil /\ EqualV(vals[s], vals[x])])

ReadAll(s) ==      \* String, accessors, RFC, SCIM, MarshalJSON
  /\ vals[s] # Nil
  /\ UNCHANGED core
  /\ Do([op |-> "read", s |-> s])

\* json.Unmarshal of text t into the receiver of type ty
Unmarshal(ty, t) ==
  LET o == PR[TypeMode(ty)][t] IN
  /\ recv' = [recv EXCEPT ![ty] = IF ~o.ok THEN @
                                  ELSE IF ty = "SCIM" THEN o.urn.scim ELSE o.urn]
  /\ UNCHANGED <<mach, vals>>
  /\ Do([op |-> "unm", ty |-> ty, t |-> t, ok |-> o.ok])

\* other JSON: null, a number, an array, an object, broken
UnmarshalBad(ty, k) ==
  /\ UNCHANGED core
  /\ Do([op |-> "unmbad", ty |-> ty, k |-> k])

\* take the receiver out: a copy of *u (URN), the pointer inside (URN8141)
Take(ty, d) ==
  /\ ty \in {"URN", "URN8141"} /\ recv[ty] # Nil
  /\ vals' = [vals EXCEPT ![d] = recv[ty]]
  /\ UNCHANGED <<mach, recv>>
  /\ Do([op |-> "take", ty |-> ty, d |-> d])

\* make a receiver hold what a slot holds: *u = *v, e.URN = v, s = *v.SCIM()
Put(s, ty) ==
  /\ vals[s] # Nil /\ (ty = "SCIM" => IsScim(vals[s]))
  /\ recv' = [recv EXCEPT ![ty] = IF ty = "SCIM" THEN vals[s].scim ELSE vals[s]]
  /\ UNCHANGED <<mach, vals>>
  /\ Do([op |-> "put", s |-> s, ty |-> ty])

NextLife == \/ \E m \in Mach : \/ \E x \in Opt : SetMode(m, x) \/ New(m, <<x>>)
                               \/ New(m, <<>>)
                               \/ \E x, y \in {"default", "8141", "7643"} : New(m, <<x, y>>)
                               \/ \E t \in T : \E s \in Slot : MParse(m, t, s)

NextVals == \/ \E s \in Slot : \/ \E t \in T, m \in Modes : PParse(<<m>>, t, s)
                               \/ \E d \in Slot : Normalize(s, d) \/ Copy(s, d) \/ Equal(s, d)
                               \/ \E i \in DOMAIN Ids, k \in DOMAIN Sss2 : Compose(i, k, s)
                               \/ \E i \in DOMAIN Ids : SetID(s, i)
                               \/ \E k \in DOMAIN Sss2 : SetSS(s, k)
                               \/ ReadAll(s)

NextJson == \/ \E ty \in {"URN", "URN8141", "SCIM"} :
                  \/ \E t \in T : Unmarshal(ty, t)
                  \/ \E k \in 1..5 : UnmarshalBad(ty, k)
                  \/ \E d \in Slot : Take(ty, d) \/ Put(d, ty)
            \/ \E t \in {2, 4, 5}, m \in {"8141", "7643"} : PParse(<<m>>, t, "s1")
            \/ \E s, d \in Slot : Normalize(s, d)

\* C22: values by value.  Copies share the view, so they are left out here.
NextOwn == \/ \E m \in Mach : \/ \E x \in {"8141", "7643"} : SetMode(m, x) \/ New(m, <<x>>)
                              \/ \E t \in T : \E s \in Slot : MParse(m, t, s)
           \/ \E s \in Slot : \/ \E t \in T, m \in Modes : PParse(<<m>>, t, s)
                             \/ \E d \in Slot : Normalize(s, d)
                             \/ SetID(s, 2) \/ SetSS(s, 2) \/ SetView(s)
           \/ \E ty \in {"URN", "URN8141", "SCIM"}, t \in T : Unmarshal(ty, t)

Next == /\ Len(hist) < MaxDepth
        /\ CASE Scenario = "life" -> NextLife
             [] Scenario = "vals" -> NextVals
             [] Scenario = "json" -> NextJson
             [] Scenario = "own" -> NextOwn
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties of the specification itself                                    *)

Live == {s \in Slot : vals[s] # Nil}

TypeOK ==
  /\ \A m \in Mach : mach[m] # Nil => mach[m].mode \in Modes
  /\ \A s \in Live : vals[s].kind \in Kinds

\* C13
KindView == \A s \in Live : IsScim(vals[s]) <=> vals[s].scim # NoScim

\* C07
NormIdempotent == \A s \in Live : Norm(Norm(vals[s])) = Norm(vals[s])
NormReparses == \A m \in Modes, t \in T : PR[m][t].ok =>
   LET v == PR[m][t].urn   o == Outcome(m, NormText(v)) IN
   /\ o.ok /\ o.urn.id = Norm(v).id /\ o.urn.ss = Norm(v).ss
   /\ o.norm = o.urn.ss /\ PR[m][t].norm = Norm(v).ss
ASSUME NormReparses
\* C08
Equivalence == \A s, t \in Live :
   /\ EqualV(vals[s], vals[s])
   /\ EqualV(vals[s], vals[t]) <=> EqualV(vals[t], vals[s])
   /\ EqualV(vals[s], Norm(vals[s]))
   /\ \A u \in Live : EqualV(vals[s], vals[t]) /\ EqualV(vals[t], vals[u])
                         => EqualV(vals[s], vals[u])
   /\ EqualV(vals[s], vals[t]) <=> Text(Norm(vals[s])) = Text(Norm(vals[t]))

\* C04: what parsing yields reads like what was parsed
RoundTrip == \A m \in Modes, t \in T : PR[m][t].ok =>
   /\ Text(PR[m][t].urn) = TrimHash(Texts[t])
   /\ Outcome(m, Text(PR[m][t].urn)).urn = PR[m][t].urn
ASSUME RoundTrip
\* C16, C13
CanonOK == \A t \in T : PR["7643"][t].ok =>
   Canon(PR["7643"][t].urn.scim) = SCIMHead \o PR["7643"][t].urn.ss
ASSUME CanonOK

\* C12, C17 as action properties
ReadsAreReads == [][last'.op \in {"equal", "read", "unmbad"} => UNCHANGED core]_vars
FailKeeps == [][(last'.op = "unm" /\ ~last'.ok) => UNCHANGED core]_vars
SuccessReplaces ==
  [][(last'.op = "unm" /\ last'.ok) =>
        recv'[last'.ty] = LET o == PR[TypeMode(last'.ty)][last'.t] IN
                          IF last'.ty = "SCIM" THEN o.urn.scim ELSE o.urn]_vars
NormKeepsSource == [][(last'.op = "norm" /\ last'.s # last'.d) =>
                        vals'[last'.s] = vals[last'.s]]_vars
\* C22: a call changes at most the slot it is given
Independent ==
  [][\A s \in Slot : vals'[s] # vals[s] =>
       \/ last'.op \in {"parse", "pparse", "setid", "setss", "setview"} /\ last'.s = s
       \/ last'.op \in {"norm", "compose", "copy", "take"} /\ last'.d = s]_vars
\* C09: the outcome of a parse is a function of the mode in force and the text
Memoryless == [][last'.op = "parse" =>
                   last'.res = Res(Outcome(mach[last'.m].mode, Texts[last'.t]))]_vars

----------------------------------------------------------------------------
(* Export: every transition with a shortest history that leads to it, or, in  *)
(* simulation, every complete history                                        *)
Seen(v) == IF v = Nil THEN Nil ELSE Project(v)
After0 == [hist |-> hist', vals |-> [s \in Slot |-> Seen(vals'[s])], mach |-> mach',
           recv |-> [URN |-> Seen(recv'.URN), URN8141 |-> Seen(recv'.URN8141), SCIM |-> ProjectScim(recv'.SCIM)]]
Export == PrintT("STEP " \o ToJson(After0))
ExportFull == Len(hist') = MaxDepth => PrintT("STEP " \o ToJson(After0))
ASSUME PrintT("TEXTS " \o ToJson(Texts))
=============================================================================
