------------------------------- MODULE MCCover -------------------------------
(* What the registers of UrnParser cut out of the text, for byte strings of   *)
(* every length: the parts follow each other with nothing but their           *)
(* separators between them and cover the text to its end, every part is in    *)
(* the language of its kind (UrnRegex), and the escape letters that the        *)
(* parser notes while it reads the specific string are exactly the letters    *)
(* that the normal form lowercases.  All this is decided on the finite        *)
(* product of the machine with a record of what lies behind it.               *)
EXTENDS UrnRegex, UrnValues

VARIABLES mode, q,
          part,    \* the part being read
          d,       \* what it may still continue with, to be one of its kind
          gap,     \* the bytes since the last part ended (Far: many), or Open
          rok,     \* the r-component would be one if it ended where rE is
          k,       \* the normal form's transducer, inside the specific string
          fine
vars == <<mode, q, part, d, gap, rok, k, fine>>

\* bytes that are no separators are all the same here
Sepc(c) == IF c \in {Colon, Qm, Plus, Equ, Hash} THEN c ELSE 0
Open == <<-1>>
Far  == <<-2>>

Starts == [preS |-> "pre", idS |-> "id", ssS |-> "ss", nmS |-> "nm", otS |-> "ot",
           rS |-> "r", qS |-> "q", fS |-> "f"]
Ends   == {"preE", "idE", "tyE", "nmE", "otE", "rE", "qE", "fE", "ssE"}

Lang(m, p) ==
  CASE p = "pre" -> UrnWord
    [] p = "id" -> (CASE m = "2141" -> And({Cat(Cls("alnum"), Rep(Cls("ad"), 0, MaxNid - 1)), Not(UrnWord)})
                     [] m = "7643" -> Lit(sSCIM)
                     [] m = "8141" -> And({Cats(<<Cls("alnum"), Rep(Cls("ad"), 0, MaxNid - 2), Cls("alnum")>>),
                                           Not(Cats(<<UrnWord, Chr(Dash), Cls("alpha0"), All>>))}))
    [] p = "ss" -> (CASE m = "2141" -> Some(Or({Cls("sss"), Hex}))
                     [] m = "7643" -> Or({Lit(sSchemas), Lit(sApi), Lit(sParam)})   \* up to its first colon
                     [] m = "8141" -> Cat(P, Star(Or({P, Chr(Slash)}))))
    [] p = "nm" -> Some(Cls("alnum"))
    [] p = "ot" -> Some(Or({Cls("sss"), Hex}))
    [] p = "r"  -> R
    [] p = "q"  -> Q
    [] p = "f"  -> Star(Or({P, Chr(Slash), Chr(Qm)}))

Sep(p) == CASE p \in {"id", "ss", "nm", "ot"} -> <<Colon>>
            [] p = "r" -> <<Qm, Plus>> [] p = "q" -> <<Qm, Equ>> [] p = "f" -> <<Hash>>
            [] p = "pre" -> <<>>

Init == /\ mode \in Modes /\ q = Start /\ part = "none" /\ d = Empty /\ gap = <<>>
        /\ rok = FALSE /\ k = 0 /\ fine = TRUE

\* the part before ended as one of its kind
Closed(p) == p = "r" => rok

Read(c) ==
  LET s == Step(mode, q, c) IN
  /\ s.ok /\ mode' = mode /\ q' = s.q
  /\ LET ss == {x \in DOMAIN Starts : x \in s.acts}
         es == Ends \cap s.acts
         new == IF ss = {} THEN "" ELSE Starts[CHOOSE x \in ss : TRUE]
         inSS == \/ new = "ss"
                 \/ part = "ss" /\ gap = Open
                 \/ mode = "7643" /\ part \in {"ss", "nm", "ot"}
         t == NormStep(IF new = "ss" THEN 0 ELSE k, c)
     IN
     /\ fine' = /\ Cardinality(ss) <= 1 /\ Cardinality(es) <= 1 /\ ~(ss # {} /\ es # {})
                /\ ss # {} => gap = Sep(new) /\ Closed(part)
                /\ (es # {} /\ es # {"rE"}) => Null(d) /\ gap = Open
                /\ es = {"rE"} => part = "r"
                /\ (inSS /\ es = {}) => (("low" \in s.acts) <=> (t.put # c))
                /\ (inSS /\ es # {}) => k = 0
     /\ k' = IF inSS /\ (es = {} \/ mode = "7643") THEN t.to ELSE 0
     /\ part' = IF ss # {} THEN new ELSE part
     /\ gap' = IF ss # {} THEN Open
               ELSE IF es # {} THEN <<Sepc(c)>>
               ELSE IF gap \in {Open, Far} THEN gap
               ELSE IF Len(gap) >= 3 THEN Far ELSE Append(gap, Sepc(c))
     /\ d' = IF ss # {} THEN D(Lang(mode, new), c)
             ELSE IF es # {} /\ es # {"rE"} THEN Empty
             ELSE IF gap = Open \/ part = "r" THEN D(d, c) ELSE d
     /\ rok' = IF es = {"rE"} THEN Null(d) ELSE rok

Next == \E c \in Byte : Read(c)
Spec == Init /\ [][Next]_vars

Covered == fine

\* At the end of an accepted text its last part ends, as one of its kind
EndsWell ==
  LET e == Finish(mode, q) IN
  e.ok => \/ "fS" \in e.acts /\ gap = Sep("f") /\ Closed(part)       \* an empty f-component
          \/ /\ e.acts \cap Ends # {}
             /\ Null(d) /\ (gap = Open \/ "rE" \in e.acts)
             /\ part \in {"ss", "nm", "ot"} => k = 0
             /\ part = "ss" <=> e.acts = {"ssE"}
             /\ part = "r" <=> e.acts = {"rE"}
             /\ part = "q" <=> e.acts = {"qE"}
             /\ part = "f" <=> e.acts = {"fE"}
             /\ part = "nm" <=> e.acts = {"nmE", "ssE"}
             /\ part = "ot" <=> e.acts = {"otE", "ssE"}
=============================================================================
