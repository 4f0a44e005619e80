----------------------------- MODULE UrnValues -----------------------------
(* URN values: text, normal form, equality, kind, SCIM view, JSON form.     *)
(* A value is [pre, id, ss, r, q, f, kind, scim]; pre, id, ss, r, q and f   *)
(* are byte strings, kind one of Kinds, scim a SCIM record or NoScim.       *)
EXTENDS UrnParser

Kinds == {"NONE", "RFC2141", "RFC7643", "RFC8141"}

Zero == [pre |-> <<>>, id |-> <<>>, ss |-> <<>>, r |-> <<>>, q |-> <<>>,
         f |-> <<>>, kind |-> "NONE", scim |-> NoScim]

\* A value composed by a caller from an ID and an SS
Composed(id, ss) == [Zero EXCEPT !.id = id, !.ss = ss]

----------------------------------------------------------------------------
(* Text *)

Mark(m, s) == IF s = <<>> THEN <<>> ELSE m \o s

Text(v) ==
  IF v.id = <<>> \/ v.ss = <<>> THEN <<>>
  ELSE (IF v.pre = <<>> THEN sURN ELSE v.pre) \o <<Colon>> \o v.id \o <<Colon>> \o v.ss
       \o Mark(<<Qm, Plus>>, v.r) \o Mark(<<Qm, Equ>>, v.q) \o Mark(<<Hash>>, v.f)

----------------------------------------------------------------------------
(* Normal form *)

\* In a well-formed SS every "%" starts an escape; the two bytes after it are
\* what is lowercased
NormSS(s) == [i \in 1..Len(s) |->
                IF (i > 1 /\ s[i-1] = Pct) \/ (i > 2 /\ s[i-2] = Pct) THEN LowB(s[i]) ELSE s[i]]

NormId(s) == LowS(s)

Norm(v) == [Zero EXCEPT !.pre = sURN, !.id = NormId(v.id), !.ss = NormSS(v.ss)]

\* For every value with an ID and an SS: the text of the normal form
NormText(v) == sURN \o <<Colon>> \o NormId(v.id) \o <<Colon>> \o NormSS(v.ss)

EqualV(u, v) == NormText(u) = NormText(v)

(* The same as a transducer, byte by byte: state 0 plain, 1 and 2 the first  *)
(* and second byte of an escape.  Exported for the conformance tests.        *)
NormStep(k, c) ==
  IF k = 0 THEN [to |-> IF c = Pct THEN 1 ELSE 0, put |-> c]
  ELSE [to |-> (k + 1) % 3, put |-> LowB(c)]

Transduce(s) == FoldLeft(LAMBDA a, c : LET t == NormStep(a.k, c)
                                       IN [k |-> t.to, out |-> Append(a.out, t.put)],
                         [k |-> 0, out |-> <<>>], s).out

----------------------------------------------------------------------------
(* SCIM *)

TypeNames == {"schemas", "api", "param"}
NameOf(ty) == IF ty \in TypeNames THEN TypeWords[ty] ELSE <<>>
TypeOf(s)  == IF \E w \in TypeNames : TypeWords[w] = s
              THEN CHOOSE w \in TypeNames : TypeWords[w] = s ELSE "unsupported"

SCIMHead == sURN \o <<Colon>> \o sSCIM \o <<Colon>>

\* The canonical text of a SCIM value
Canon(c) == SCIMHead \o NameOf(c.ty) \o <<Colon>> \o c.nm
            \o (IF c.ot = <<>> THEN <<>> ELSE <<Colon>> \o c.ot)

IsScim(v) == v.kind = "RFC7643"

(* What a caller can read of a value *)
ProjectScim(c) == [nil |-> FALSE, ty |-> IF c = NoScim THEN "unsupported" ELSE c.ty,
                   nm |-> c.nm, ot |-> c.ot, canon |-> Canon(c)]
Project(v) == [nil |-> FALSE, id |-> v.id, ss |-> v.ss, r |-> v.r, q |-> v.q, f |-> v.f,
               kind |-> v.kind, isscim |-> IsScim(v),
               scim |-> IF IsScim(v) THEN ProjectScim(v.scim) ELSE [nil |-> TRUE],
               str |-> Text(v), norm |-> IF v.id = <<>> \/ v.ss = <<>> THEN <<>> ELSE NormText(v)]

----------------------------------------------------------------------------
(* Parsing as a caller sees it: modes, also Default and values that are no   *)
(* mode, by the grammar they select.                                         *)
ModeOf(x) == CASE x = "7643" -> "7643" [] x = "8141" -> "8141" [] OTHER -> "2141"

\* The mode of a machine made with a sequence of options
LastMode(opts) == IF opts = <<>> THEN "2141" ELSE ModeOf(opts[Len(opts)])

\* What a text becomes when it is parsed, put together and read again:
\* the "#" of an empty f-component goes
TrimHash(s) == IF Len(s) > 0 /\ s[Len(s)] = Hash THEN SubSeq(s, 1, Len(s) - 1) ELSE s

\* The mode in which each JSON-capable type parses
TypeMode(t) == CASE t = "URN" -> "2141" [] t = "URN8141" -> "8141" [] t = "SCIM" -> "7643"
=============================================================================
