------------------------------- MODULE Memory -------------------------------
(* What the library gives is a value: texts, normal forms, JSON, views, errors *)
(* and the parts of a URN stay as they were, whatever is done afterwards with  *)
(* the URN they are of, with others, and when that URN is held no more and     *)
(* its memory is collected.  The specification keeps, next to what was given,  *)
(* what would be read of it under designs that use memory again:               *)
(*   shared    one buffer for every answer                                     *)
(*   ring      two buffers, in turn                                            *)
(*   scratch   a buffer of the value, filled for each answer                   *)
(*   linked    what is given is the value's own part, and goes with it         *)
(*   refilled  unmarshalling fills the memory that the value had               *)
(*   finalized the memory of a value that is held no more is used again        *)
(*   freed     the memory of an answer is given back as the next is asked for, *)
(*             and used again at once                                          *)
(* TLC checks the library's design (everything new), shows that each of the    *)
(* others goes wrong (Shown), and exports every history that shows one; the    *)
(* harness runs them, thousands in one process with collections between.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Design

Designs == {"shared", "ring", "scratch", "linked", "refilled", "finalized", "freed"}
Slots == {"a", "b"}

VARIABLES val,   \* slot -> <<>> or <<[text, own]>>: what is there, and whose memory
          gave,  \* what was given: sequence of [was, cell: design -> cell]
          mem,   \* design -> what is in the cells, as a sequence of <<cell, text>>, newest last
          gone,  \* owners held no more
          free,  \* owners whose memory is collected
          hist
vars == <<val, gave, mem, gone, free, hist>>

None == 0
Step == Len(hist) + 1
\* the newest of what was written to a cell
Read(d, c) == LET w == mem[d] IN w[CHOOSE i \in DOMAIN w : w[i][1] = c /\ \A j \in DOMAIN w : j > i => w[j][1] # c][2]
Write(d, c, x) == [mem EXCEPT ![d] = Append(@, <<c, x>>)]
Written(d) == { mem[d][i][1] : i \in DOMAIN mem[d] }

\* which memory an answer is given in; every design has its own cells
Asked == Len(gave)
CellOf(d, s) ==
  CASE d = "shared"    -> <<"one", 0>>
    [] d = "ring"      -> <<"ring", Asked % 2>>
    [] d = "scratch"   -> <<"of", val[s][1].own>>
    [] d = "linked"    -> <<"of", val[s][1].own>>
    [] d = "refilled"  -> <<"of", val[s][1].own>>
    [] d = "finalized" -> IF free # {} THEN <<"of", CHOOSE o \in free : \A p \in free : o <= p>> ELSE <<"of", val[s][1].own>>
    [] d = "freed"     -> <<"turn", IF Asked = 0 THEN 0 ELSE 1 - gave[Asked].turn>>
\* the design writes to the memory of a value as it is changed
Touches(d, how) == d = "linked" \/ (d = "refilled" /\ how = "refill")

Init == /\ val = [s \in Slots |-> <<>>] /\ gave = <<>> /\ mem = [d \in Designs |-> <<>>]
        /\ gone = {} /\ free = {} /\ hist = <<>>

Say(rec) == hist' = Append(hist, rec)
Leave(s) == IF val[s] = <<>> THEN gone ELSE gone \cup {val[s][1].own}

Make(s) == /\ val' = [val EXCEPT ![s] = <<[text |-> Step, own |-> Step]>>]
           /\ gone' = Leave(s)
           /\ Say([op |-> "make", s |-> s]) /\ UNCHANGED <<gave, mem, free>>
Change(s, how) ==
  /\ val[s] # <<>>
  /\ val' = [val EXCEPT ![s][1].text = Step]
  /\ mem' = [d \in Designs |-> IF Touches(d, how) THEN Append(mem[d], << <<"of", val[s][1].own>>, Step >>) ELSE mem[d]]
  /\ Say([op |-> how, s |-> s]) /\ UNCHANGED <<gave, gone, free>>
Ask(s) ==
  /\ val[s] # <<>> /\ Len(gave) < 3
  /\ LET cell == [d \in Designs |-> CellOf(d, s)] IN
     /\ gave' = Append(gave, [was |-> val[s][1].text, cell |-> cell, turn |-> IF Asked = 0 THEN 0 ELSE 1 - gave[Asked].turn])
     /\ mem' = [d \in Designs |-> Append(mem[d], <<cell[d], val[s][1].text>>)]
  /\ free' = IF free = {} THEN {} ELSE free \ {CHOOSE o \in free : \A p \in free : o <= p}
  /\ Say([op |-> "ask", s |-> s]) /\ UNCHANGED <<val, gone>>
Drop(s) == /\ val[s] # <<>>
           /\ val' = [val EXCEPT ![s] = <<>>] /\ gone' = Leave(s)
           /\ Say([op |-> "drop", s |-> s]) /\ UNCHANGED <<gave, mem, free>>
Collect == /\ gone # {}
           /\ free' = free \cup gone /\ gone' = {}
           /\ Say([op |-> "collect"]) /\ UNCHANGED <<val, gave, mem>>

\* the second slot is used after the first
Used(s) == s = "a" \/ \E i \in DOMAIN hist : hist[i].op = "make" /\ hist[i].s = "a"
Next == /\ Len(hist) < Depth
        /\ \/ \E s \in Slots : Used(s) /\ (Make(s) \/ Change(s, "assign") \/ Change(s, "refill") \/ Ask(s) \/ Drop(s))
           \/ Collect
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* what is read now of what was given
Now(d, g) == IF d = "fresh" THEN g.was ELSE Read(d, g.cell[d])
Keeps(d) == \A i \in DOMAIN gave : Now(d, gave[i]) = gave[i].was
Lasting == Keeps(Design)

Shown == { d \in Designs : ~Keeps(d) }
Last == hist[Len(hist)].op
\* those that show something, and did not a step before
Export == Shown' # {} /\ Shown' # Shown =>
   PrintT("MEM " \o ToJson([hist |-> hist', shows |-> Shown']))
=============================================================================
