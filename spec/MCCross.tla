------------------------------- MODULE MCCross -------------------------------
(* The machines of the three modes side by side over every byte string, of    *)
(* every length: what C14 says of their languages, their parts and their      *)
(* normal forms.  A component of the state is Dead once its mode rejects.      *)
(* nid watches whether the text up to the second colon has an identifier that *)
(* RFC 8141 allows, by counting; nothing of the machines goes into it.        *)
EXTENDS UrnValues

VARIABLES a, b, c,        \* control states: RFC 2141, RFC 7643, RFC 8141
          nid,            \* [n, dash, w, at]: see Watch
          odd,            \* the text behind the second colon has ~, & or /
          bare,           \* no component marker was read in RFC 8141 mode
          fine
vars == <<a, b, c, nid, odd, bare, fine>>

Dead == <<"dead", 0, "">>
Alive(q) == q # Dead
Go(m, q, x) == IF q = Dead THEN Dead ELSE LET s == Step(m, q, x) IN IF s.ok THEN s.q ELSE Dead
Acts(m, q, x) == IF q = Dead THEN {} ELSE LET s == Step(m, q, x) IN IF s.ok THEN s.acts ELSE {}
Ok(m, q) == q # Dead /\ Finish(m, q).ok

\* nid.at: "pre" (before the first colon), "id", "ss"; n: length so far, at most
\* MaxNid + 1; first, dash: it starts, ends with a dash; bad: some byte cannot
\* be; w: how far it spells "urn-", or "no"; inf: it goes on like an informal one
Nid0 == [at |-> "pre", n |-> 0, first |-> FALSE, dash |-> FALSE, bad |-> FALSE, w |-> 0, inf |-> FALSE]
Spelled(w, x) == IF w \in 0..2 /\ LowB(x) = sURN[w + 1] THEN w + 1
                 ELSE IF w = 3 /\ x = Dash THEN 4 ELSE 9
Watch(z, x) ==
  CASE z.at = "pre" -> IF x = Colon THEN [z EXCEPT !.at = "id"] ELSE z
    [] z.at = "id" ->
         IF x = Colon THEN [z EXCEPT !.at = "ss"]
         ELSE [z EXCEPT !.n = IF @ > MaxNid THEN @ ELSE @ + 1,
                        !.first = IF z.n = 0 THEN x = Dash ELSE @,
                        !.dash = (x = Dash),
                        !.bad = @ \/ x \notin Alnum \cup {Dash},
                        !.w = IF @ = 4 THEN 5 ELSE Spelled(@, x),
                        !.inf = @ \/ (z.w = 4 /\ x \in Alpha \cup {48})]
    [] z.at = "ss" -> z
Legal(z) == z.n \in 2..MaxNid /\ ~z.first /\ ~z.dash /\ ~z.bad /\ ~z.inf
IsUrn(z) == z.n = 3 /\ z.w = 3

Init == /\ a = Start /\ b = Start /\ c = Start /\ nid = Nid0
        /\ odd = FALSE /\ bare = TRUE /\ fine = TRUE

\* the marks that two machines set at one byte
Shared == {"idS", "idE", "ssS", "low"}
Read(x) ==
  /\ Alive(a) \/ Alive(b) \/ Alive(c)
  /\ a' = Go("2141", a, x) /\ b' = Go("7643", b, x) /\ c' = Go("8141", c, x)
  /\ nid' = Watch(nid, x)
  /\ odd' = (odd \/ (nid.at = "ss" /\ x \in {Tilde, Amp, Slash}))
  /\ bare' = (bare /\ ~(Alive(c) /\ c[1] \in {"S"} /\ x \in {Qm, Hash}))
  \* parts start and end, and escapes have their letters, at the same bytes;
  \* the identifiers of SCIM text differ, the text behind "urn:" does not
  /\ fine' = /\ (Alive(a') /\ Alive(c')) =>
                  Acts("2141", a, x) \cap Shared = Acts("8141", c, x) \cap Shared
             /\ (Alive(a') /\ Alive(b')) =>
                  ("low" \in Acts("2141", a, x) <=> "low" \in Acts("7643", b, x))

Next == \E x \in Byte : Read(x)
Spec == Init /\ [][Next]_vars

SamePlaces == fine

\* every SCIM text is a text of the two other modes, without components
ScimIn == Ok("7643", b) => Ok("2141", a) /\ Ok("8141", c) /\ bare
\* already while it is read
ScimOn == Alive(b) => Alive(a) /\ Alive(c)

\* RFC 2141 with an identifier that RFC 8141 allows
OldIn == (Ok("2141", a) /\ Legal(nid)) => Ok("8141", c) /\ bare

\* RFC 8141 without components and without the bytes RFC 2141 lacks
NewIn == (Ok("8141", c) /\ bare /\ ~odd /\ ~IsUrn(nid)) => Ok("2141", a)

\* and no more: what either accepts alone has a reason
OnlyOld == (Ok("2141", a) /\ ~Ok("8141", c)) => ~Legal(nid)
OnlyNew == (Ok("8141", c) /\ ~Ok("2141", a)) => odd \/ ~bare \/ IsUrn(nid)
=============================================================================
