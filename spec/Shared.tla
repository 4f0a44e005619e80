------------------------------- MODULE Shared -------------------------------
(* Goroutines on shared things.  A call is a sequence of accesses to cells,   *)
(* and calls of different goroutines interleave access by access.             *)
(*                                                                            *)
(* What a caller may do at the same time follows from what the API says each  *)
(* call reads and writes (Reads, Writes): two calls conflict if one writes    *)
(* what the other touches.  Every set of calls without a conflict must give   *)
(* each call the result it has alone, and no two accesses may race.  In the   *)
(* library's design that is so because no call writes anything shared but     *)
(* what it says; in the other designs something hidden is written, and TLC    *)
(* finds the scenarios that show it.                                          *)
(*                                                                            *)
(* Every scenario is exported; the harness runs each in the real code, many   *)
(* times, under the race detector.  What a process fills once ("once") no     *)
(* scenario shows when it is warm: with Warm that design is refuted nowhere,  *)
(* and without in every pair of calls that fill.  So the harness also starts  *)
(* processes whose first calls are concurrent, one for each kind of call.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Design,   \* "pure", or a way to get it wrong
          Width,    \* how many goroutines
          Warm      \* the process has made every call once before

----------------------------------------------------------------------------
(* The things.  v was parsed from buffer b by machine m; k is a struct copy of *)
(* v, so that it has the SCIM view of v; n is v normalized; u is a receiver of *)
(* unmarshalling, filled already, and g a struct copy of it; w another value,  *)
(* parsed by itself.  b is text, j is JSON, c what machine m parses next.      *)
Values == {"v", "k", "n", "u", "g", "w"}
Things == Values \cup {"b", "j", "c", "m", "view"}

ReadOps == {"string", "normalize", "marshal", "scim", "fields", "marshal8141"}
Calls ==
  { [op |-> o, x |-> x] : o \in ReadOps, x \in Values }
  \cup { [op |-> "equal", x |-> p[1], y |-> p[2]] : p \in Values \X Values }
  \cup { [op |-> o, x |-> x] : o \in {"setid", "setss"}, x \in {"v", "k", "n", "g"} }
  \cup { [op |-> o, x |-> "b"] : o \in {"parse2141", "parse8141", "parse7643", "scribble"} }
  \cup { [op |-> o, x |-> "j"] : o \in {"unmarshalURN", "unmarshal8141", "unmarshalSCIM", "scribble"} }
  \cup { [op |-> "mparse", x |-> "m"], [op |-> "scribble", x |-> "c"], [op |-> "copy", x |-> "v"], [op |-> "copy", x |-> "u"],
         [op |-> "unmarshalinto", x |-> "u"], [op |-> "newmachine", x |-> "none"] }

HasView(x) == x \in {"v", "k"}
\* what the API says
Reads(c) ==
  CASE c.op = "equal" -> {c.x, c.y}
    [] c.op = "scim" -> {c.x} \cup (IF HasView(c.x) THEN {"view"} ELSE {})
    [] c.op \in ReadOps \cup {"copy"} -> {c.x}
    [] c.op \in {"setid", "setss"} -> {c.x}
    [] c.op \in {"parse2141", "parse8141", "parse7643"} -> {"b"}
    [] c.op \in {"unmarshalURN", "unmarshal8141", "unmarshalSCIM"} -> {"j"}
    [] c.op = "mparse" -> {"m", "c"}
    [] c.op = "unmarshalinto" -> {"j", "u"}
    [] OTHER -> {}
Writes(c) ==
  CASE c.op \in {"setid", "setss", "scribble"} -> {c.x}
    [] c.op = "mparse" -> {"m"}
    [] c.op = "unmarshalinto" -> {"u"}
    [] OTHER -> {}
Conflict(c, d) == Writes(c) \cap (Reads(d) \cup Writes(d)) # {} \/ Writes(d) \cap (Reads(c) \cup Writes(c)) # {}

----------------------------------------------------------------------------
(* Accesses.  [k |-> "r" or "w", at |-> cell]; a value written is what the     *)
(* cell had before, spoiled, until "restore".  Cells of a value: its fields    *)
(* and the cache a wrong design fills while reading.                           *)
R(t) == [k |-> "r", at |-> t]
W(t) == [k |-> "w", at |-> t]
Restore(t) == [k |-> "restore", at |-> t]
Fill(t) == [k |-> "fill", at |-> t]        \* a write if nobody did it before, a read else
Cells == Things \cup {"cache " \o x : x \in Values} \cup {"package"}

\* the storage of the text of values that a wrong design shares with others
Storage(d, x) == CASE d = "aliases" /\ x \in {"v", "k"} -> <<R("b")>>
                [] d = "machine" /\ x \in {"v", "k"} -> <<R("m")>>
                [] d = "normshares" /\ x = "n" -> <<R("v")>>
                [] d = "jsonaliases" /\ x \in {"u", "g"} -> <<R("j")>>
                [] OTHER -> <<>>
\* reading x
Look(d, x) == <<R(x)>> \o Storage(d, x)
Cached(d, x) == IF d = "lazy" THEN <<R("cache " \o x), W("cache " \o x)>> ELSE <<>>
Scratch(d) == IF d = "scratch" THEN <<W("package"), R("package")>> ELSE <<>>
Memo(d) == CASE d = "memo" -> <<R("package"), W("package")>>
             [] d = "once" -> <<Fill("package"), R("package")>>
             [] OTHER -> <<>>
Text(d, b) == IF d = "transient" THEN <<R(b), W(b), R(b), Restore(b)>> ELSE <<R(b), R(b)>>

Accesses(d, c) ==
  CASE c.op = "normalize" -> Look(d, c.x) \o Cached(d, c.x) \o Scratch(d)
    [] c.op = "equal" -> Look(d, c.x) \o Cached(d, c.x) \o Look(d, c.y) \o Cached(d, c.y) \o Scratch(d)
    [] c.op = "scim" -> Look(d, c.x) \o (IF HasView(c.x) THEN <<R("view")>> \o (IF d = "viewcache" THEN <<W("view")>> ELSE <<>>) ELSE <<>>)
    [] c.op \in ReadOps \cup {"copy"} -> Look(d, c.x)
    [] c.op \in {"setid", "setss"} -> Look(d, c.x) \o <<W(c.x)>>
    [] c.op \in {"parse2141", "parse8141", "parse7643"} -> Text(d, "b") \o Memo(d)
    [] c.op \in {"unmarshalURN", "unmarshal8141", "unmarshalSCIM"} -> Text(d, "j") \o Memo(d)
    [] c.op = "mparse" -> <<W("m")>> \o Text(d, "c") \o Memo(d) \o <<W("m")>>
    [] c.op = "unmarshalinto" -> Text(d, "j") \o Memo(d) \o <<W("u")>>
    [] c.op = "scribble" -> <<W(c.x), W(c.x)>>
    [] c.op = "newmachine" -> IF d = "tables" THEN <<W("package"), R("package")>> ELSE <<>>

----------------------------------------------------------------------------
Numbered == SetToSeq(Calls)
NC == Len(Numbered)
\* "equal" of a value with itself and the like stay in; the order of goroutines
\* does not matter
Free == [i \in 1..NC |-> { j \in i..NC : ~Conflict(Numbered[i], Numbered[j]) }]

VARIABLES sc,       \* the scenario: the numbers of the calls
          pc,       \* goroutine -> next access
          filled,   \* the package has filled what it fills at the first need
          spoiled,  \* cell -> goroutine that last wrote something else to it, or 0
          saw       \* goroutines that read what another wrote
vars == <<sc, pc, filled, spoiled, saw>>

G == 1..Width
Acc == [i \in 1..NC |-> Accesses(Design, Numbered[i])]

Init == /\ sc \in IF Width = 2 THEN { <<i, j>> : i \in 1..NC, j \in 1..NC }
                  ELSE { <<i, j, k>> : i \in 1..NC, j \in 1..NC, k \in 1..NC }
        /\ \A g, h \in G : g < h => sc[h] \in Free[sc[g]]
        /\ pc = [g \in G |-> 1]
        /\ filled = Warm
        /\ spoiled = [c \in Cells |-> 0]
        /\ saw = {}

Pending(g) == pc[g] <= Len(Acc[sc[g]])
Access(g) == Acc[sc[g]][pc[g]]
Step(g) ==
  /\ Pending(g)
  /\ LET a == Access(g) IN
     /\ spoiled' = CASE a.k \in {"r", "fill"} -> spoiled
                      [] a.k = "w" -> [spoiled EXCEPT ![a.at] = g]
                      [] a.k = "restore" -> [spoiled EXCEPT ![a.at] = 0]
     /\ saw' = IF a.k = "r" /\ spoiled[a.at] \notin {0, g} THEN saw \cup {g} ELSE saw
     /\ filled' = (filled \/ a.k = "fill")
  /\ pc' = [pc EXCEPT ![g] = @ + 1]
  /\ UNCHANGED sc
Next == \E g \in G : Step(g)
Spec == Init /\ [][Next]_vars

\* C15: no two accesses race
Reading(g) == Access(g).k = "r" \/ (Access(g).k = "fill" /\ filled)
NoRace == \A g, h \in G : (g # h /\ Pending(g) /\ Pending(h) /\ Access(g).at = Access(h).at)
                             => Reading(g) /\ Reading(h)
\* C15: every call reads what it reads alone
Undisturbed == saw = {}
\* and no call does but what the API says
Honest == \A i \in 1..NC : \A x \in DOMAIN Acc[i] :
             /\ Acc[i][x].at \in Reads(Numbered[i]) \cup Writes(Numbered[i])
             /\ Acc[i][x].k # "r" => Acc[i][x].at \in Writes(Numbered[i])

----------------------------------------------------------------------------
Designs == {"aliases", "machine", "normshares", "jsonaliases", "lazy", "scratch", "memo", "transient", "viewcache", "tables", "once"}
AccOf == [d \in Designs |-> [i \in 1..NC |-> Accesses(d, Numbered[i])]]
Shows(d, i, j) == \E x \in DOMAIN AccOf[d][i], y \in DOMAIN AccOf[d][j] :
                    AccOf[d][i][x].at = AccOf[d][j][y].at /\ (AccOf[d][i][x].k # "r" \/ AccOf[d][j][y].k # "r")
Pairs == { p \in (1..NC) \X (1..NC) : p[2] \in Free[p[1]] }
\* each wrong design is shown by some scenario
ASSUME \A d \in Designs : \E p \in Pairs : Shows(d, p[1], p[2])

\* every scenario, as it starts
AtStart == (\A g \in G : pc[g] = 1) =>
   PrintT("SCENE " \o ToJson([calls |-> [g \in G |-> Numbered[sc[g]]],
                              shows |-> { d \in Designs : \E g, h \in G : g < h /\ Shows(d, sc[g], sc[h]) }]))
=============================================================================
