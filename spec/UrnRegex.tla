------------------------------ MODULE UrnRegex ------------------------------
(* The three languages a second time, as regular expressions with            *)
(* intersection and complement, closer to how the RFCs write them; and their *)
(* derivatives.  The expressions reachable by derivation are finitely many,  *)
(* so the product with the machine of UrnParser (MCRegex) compares the two   *)
(* on every byte string of every length.                                     *)
EXTENDS UrnParser

----------------------------------------------------------------------------
(* Expressions, in a normal form: union and intersection are sets, sequences *)
(* nest to the right.                                                        *)
Empty   == [or |-> {}]
Eps     == [eps |-> TRUE]
Cls(n)  == [cls |-> n]           \* a byte of a named class
Chr(c)  == [chr |-> c]
Is(r, f) == f \in DOMAIN r

Rep(r, lo, hi) ==                \* hi = -1: any number
  IF hi = 0 THEN Eps ELSE [rp |-> r, lo |-> lo, hi |-> hi]
Star(r) == Rep(r, 0, -1)
Some(r) == Rep(r, 1, -1)
All     == Star(Cls("byte"))

Not(r)  == IF Is(r, "nt") THEN r.nt ELSE IF r = All THEN Empty ELSE IF r = Empty THEN All ELSE [nt |-> r]

Or(S) == LET F == (UNION {IF Is(r, "or") THEN r.or ELSE {r} : r \in S}) IN
         IF All \in F THEN All
         ELSE IF Cardinality(F) = 1 THEN CHOOSE r \in F : TRUE ELSE [or |-> F]
And(S) == LET F == (UNION {IF Is(r, "and") THEN r.and ELSE {r} : r \in S}) \ {All} IN
          IF Empty \in F THEN Empty
          ELSE IF F = {} THEN All
          ELSE IF Cardinality(F) = 1 THEN CHOOSE r \in F : TRUE ELSE [and |-> F]

RECURSIVE Cat(_, _)
Cat(a, b) == IF a = Empty \/ b = Empty THEN Empty
             ELSE IF a = Eps THEN b ELSE IF b = Eps THEN a
             ELSE IF Is(a, "hd") THEN Cat(a.hd, Cat(a.tl, b))
             ELSE [hd |-> a, tl |-> b]

RECURSIVE Cats(_)
Cats(s) == IF s = <<>> THEN Eps ELSE Cat(Head(s), Cats(Tail(s)))
Lit(s)  == Cats([i \in 1..Len(s) |-> Chr(s[i])])
Opt(r)  == Or({Eps, r})

Classes == [byte |-> Byte, alnum |-> Alnum, ad |-> Alnum \cup {Dash}, alpha0 |-> Alpha \cup {48},
            sss |-> Sss, pchar |-> PChar, comp |-> PChar \cup {Pct}, noslash |-> Byte \ {Slash},
            u |-> {85, 117}, r |-> {82, 114}, n |-> {78, 110}]

----------------------------------------------------------------------------
(* Derivatives *)

RECURSIVE Null(_)
Null(r) == CASE Is(r, "or")  -> \E x \in r.or : Null(x)
             [] Is(r, "and") -> \A x \in r.and : Null(x)
             [] Is(r, "eps") -> TRUE
             [] Is(r, "cls") \/ Is(r, "chr") -> FALSE
             [] Is(r, "hd")  -> Null(r.hd) /\ Null(r.tl)
             [] Is(r, "nt")  -> ~Null(r.nt)
             [] Is(r, "rp")  -> r.lo = 0          \* nothing repeated here is nullable

RECURSIVE D(_, _)
D(r, c) == CASE Is(r, "or")  -> Or({D(x, c) : x \in r.or})
             [] Is(r, "and") -> And({D(x, c) : x \in r.and})
             [] Is(r, "eps") -> Empty
             [] Is(r, "cls") -> IF c \in Classes[r.cls] THEN Eps ELSE Empty
             [] Is(r, "chr") -> IF c = r.chr THEN Eps ELSE Empty
             [] Is(r, "hd")  -> Or({Cat(D(r.hd, c), r.tl)} \cup (IF Null(r.hd) THEN {D(r.tl, c)} ELSE {}))
             [] Is(r, "nt")  -> Not(D(r.nt, c))
             [] Is(r, "rp")  -> Cat(D(r.rp, c), Rep(r.rp, IF r.lo > 0 THEN r.lo - 1 ELSE 0,
                                                    IF r.hi > 0 THEN r.hi - 1 ELSE r.hi))

----------------------------------------------------------------------------
(* The languages *)

UrnWord == Cats(<<Cls("u"), Cls("r"), Cls("n")>>)
Pre     == Cat(UrnWord, Chr(Colon))
Hex     == Cats(<<Chr(Pct), Cls("alnum"), Cls("alnum")>>)

L2141 == Cats(<<Pre,
                And({Cat(Cls("alnum"), Rep(Cls("ad"), 0, MaxNid - 1)), Not(UrnWord)}),
                Chr(Colon),
                Some(Or({Cls("sss"), Hex}))>>)

L7643 == Cats(<<Pre, Lit(sSCIM), Chr(Colon), Or({Lit(sSchemas), Lit(sApi), Lit(sParam)}), Chr(Colon),
                Some(Cls("alnum")),
                Opt(Cat(Chr(Colon), Some(Or({Cls("sss"), Hex}))))>>)

P       == Or({Cls("pchar"), Hex})
Comp    == Cat(P, Star(Or({P, Chr(Slash), Chr(Qm)})))
\* no further marker "?b", except before a slash, where no component can start
NoMark(b) == Not(Cats(<<All, Chr(Qm), Chr(b), Opt(Cat(Cls("noslash"), All))>>))
\* ... and none with which the next component starts
NoStart(b) == Not(Cats(<<All, Chr(Qm), Chr(b), Cls("comp"), All>>))
R       == And({Comp, NoMark(Plus), NoStart(Equ)})
Q       == And({Comp, NoMark(Equ)})

L8141 == Cats(<<Pre,
                And({Cats(<<Cls("alnum"), Rep(Cls("ad"), 0, MaxNid - 2), Cls("alnum")>>),
                     Not(Cats(<<UrnWord, Chr(Dash), Cls("alpha0"), All>>))}),
                Chr(Colon),
                Cat(P, Star(Or({P, Chr(Slash)}))),
                Opt(Cats(<<Chr(Qm), Chr(Plus), R>>)),
                Opt(Cats(<<Chr(Qm), Chr(Equ), Q>>)),
                Opt(Cat(Chr(Hash), Star(Or({P, Chr(Slash), Chr(Qm)}))))>>)

Language == ("2141" :> L2141) @@ ("7643" :> L7643) @@ ("8141" :> L8141)
=============================================================================
