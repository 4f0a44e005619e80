----------------------------- MODULE UrnGrammar -----------------------------
(* The three languages and their decompositions, stated declaratively over   *)
(* whole byte strings, independently of the machine in UrnParser.            *)
EXTENDS Bytes, FiniteSets

\* Every byte is allowed plainly or starts an escape of two alphanumerics
Made(s, plain) ==
  \A i \in 1..Len(s) :
     \/ s[i] \in plain
     \/ s[i] = Pct /\ i + 2 <= Len(s) /\ s[i+1] \in Alnum /\ s[i+2] \in Alnum

MinOf(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x <= y
First(s, b) == MinOf({i \in 1..Len(s) : s[i] = b}, Len(s) + 1)
Upto(s, i)  == SubSeq(s, 1, i - 1)
After(s, i) == SubSeq(s, i + 1, Len(s))
Starts(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t

HasPrefix(s) == Len(s) >= 4 /\ LowS(SubSeq(s, 1, 3)) = sURN /\ s[4] = Colon
Body(s)      == SubSeq(s, 5, Len(s))

None == [ok |-> FALSE]

----------------------------------------------------------------------------
(* RFC 2141 *)
NID2141(s) ==
  /\ Len(s) \in 1..MaxNid
  /\ \A i \in 1..Len(s) : s[i] \in Alnum \cup {Dash}
  /\ s[1] # Dash
  /\ LowS(s) # sURN
NSS2141(s) == Len(s) > 0 /\ Made(s, Sss)

Split2141(s) ==
  IF ~HasPrefix(s) THEN None
  ELSE LET b == Body(s)  k == First(b, Colon) IN
       IF k <= Len(b) /\ NID2141(Upto(b, k)) /\ NSS2141(After(b, k))
       THEN [ok |-> TRUE, id |-> Upto(b, k), ss |-> After(b, k),
             r |-> <<>>, q |-> <<>>, f |-> <<>>]
       ELSE None

----------------------------------------------------------------------------
(* RFC 7643 *)
Types == {sSchemas, sApi, sParam}

Split7643(s) ==
  IF ~HasPrefix(s) \/ ~Starts(Body(s), Append(sSCIM, Colon)) THEN None
  ELSE LET ss == After(Body(s), Len(sSCIM) + 1)
           k  == First(ss, Colon)
           ty == Upto(ss, k)
           rest == After(ss, k)
           j  == First(rest, Colon)
           nm == Upto(rest, j)
           ot == After(rest, j)
       IN IF /\ k <= Len(ss) /\ ty \in Types
             /\ Len(nm) > 0 /\ \A i \in 1..Len(nm) : nm[i] \in Alnum
             /\ j <= Len(rest) => Len(ot) > 0 /\ Made(ot, Sss)
          THEN [ok |-> TRUE, id |-> sSCIM, ss |-> ss, r |-> <<>>, q |-> <<>>, f |-> <<>>,
                ty |-> ty, nm |-> nm, ot |-> ot]
          ELSE None

----------------------------------------------------------------------------
(* RFC 8141 *)
InformalStart(s) == /\ Len(s) >= 5 /\ LowS(SubSeq(s, 1, 3)) = sURN /\ s[4] = Dash
                    /\ s[5] \in Alpha \cup {48}
NID8141(s) ==
  /\ Len(s) \in 2..MaxNid
  /\ \A i \in 1..Len(s) : s[i] \in Alnum \cup {Dash}
  /\ s[1] # Dash /\ s[Len(s)] # Dash
  /\ ~InformalStart(s)
NSS8141(s) == Len(s) > 0 /\ s[1] # Slash /\ Made(s, PChar \cup {Slash})

Component(s) == /\ Len(s) > 0 /\ s[1] \notin {Slash, Qm}
                /\ Made(s, PChar \cup {Slash, Qm})
\* No second marker, except before a slash, where no component can start
NoMarker(s, b) == \A i \in 1..(Len(s) - 1) :
                     (s[i] = Qm /\ s[i+1] = b) => i + 2 <= Len(s) /\ s[i+2] = Slash
RComp(s) == Component(s) /\ NoMarker(s, Plus)
QComp(s) == Component(s) /\ NoMarker(s, Equ)
FComp(s) == Made(s, PChar \cup {Slash, Qm})

\* Inside what follows "?+": where the "?=" that begins the q-component is
QAt(t) == MinOf({i \in 2..(Len(t) - 2) : /\ t[i] = Qm /\ t[i+1] = Equ
                                         /\ t[i+2] \in PChar \cup {Pct}}, Len(t) + 1)

Split8141(s) ==
  IF ~HasPrefix(s) THEN None
  ELSE LET b   == Body(s)
           k   == First(b, Colon)
           id  == Upto(b, k)
           x   == After(b, k)                  \* all after the NID
           h   == First(x, Hash)
           y   == Upto(x, h)                   \* without f-component
           f   == After(x, h)
           m   == First(y, Qm)
           ss  == Upto(y, m)
           t   == SubSeq(y, m, Len(y))         \* empty or from the first "?"
           isr == Starts(t, <<Qm, Plus>>)
           isq == Starts(t, <<Qm, Equ>>)
           u   == After(t, 2)
           a   == QAt(u)
           r   == IF isr THEN Upto(u, a) ELSE <<>>
           q   == IF isq THEN u ELSE IF isr THEN After(u, a + 1) ELSE <<>>
           hasq == isq \/ (isr /\ a <= Len(u))
       IN IF /\ k <= Len(b) /\ NID8141(id) /\ NSS8141(ss)
             /\ t = <<>> \/ isr \/ isq
             /\ isr => RComp(r)
             /\ hasq => QComp(q)
             /\ FComp(f)
          THEN [ok |-> TRUE, id |-> id, ss |-> ss, r |-> r, q |-> q, f |-> f]
          ELSE None

Split(m, s) == CASE m = "2141" -> Split2141(s)
                 [] m = "7643" -> Split7643(s)
                 [] m = "8141" -> Split8141(s)
=============================================================================
