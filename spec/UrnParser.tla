----------------------------- MODULE UrnParser -----------------------------
(* The parser as a machine that consumes one byte per step, in one of three *)
(* modes.  A control state is <<phase, count, word>>; a step either goes on *)
(* to a control state, performing register marks, or rejects with an error  *)
(* kind and a column offset relative to the byte being read.  Finish says   *)
(* what the end of the input does in a control state.                       *)
(*                                                                          *)
(* Registers are offsets: a mark "xS" (start) or "xE" (end) sets it to the  *)
(* offset of the byte being read (the length, at the end of the input).     *)
(* "low" records that this byte is an upper-case letter of an escape.       *)
EXTENDS Bytes, FiniteSets, SequencesExt, TLC

Modes == {"2141", "7643", "8141"}

Marks == {"preS", "preE", "idS", "idE", "ssS", "ssE", "tyE", "nmS", "nmE",
          "otS", "otE", "rS", "rE", "qS", "qE", "fS", "fE"}

Start == <<"P0", 0, "">>

On(ph, n, w, acts) == [ok |-> TRUE, q |-> <<ph, n, w>>, acts |-> acts]
To(ph, acts)       == On(ph, 0, "", acts)
Bad(e)             == [ok |-> FALSE, err |-> e, off |-> 0]
BadAt(e, off)      == [ok |-> FALSE, err |-> e, off |-> off]
Acc(acts)          == [ok |-> TRUE, acts |-> acts]

\* What an escape's letter does besides moving on
Esc(ph, w, c) == On(ph, 0, w, IF c \in Upper THEN {"low"} ELSE {})

\* Deliberate deviation: a byte that does not fit directly after a complete
\* escape (word "x") is reported with the escape's message.
BadEsc(q, e) == Bad(IF q[3] = "x" THEN "hex" ELSE e)

----------------------------------------------------------------------------
(* "urn:" in every mode *)

PrePhases == {"P0", "P1", "P2", "P3"}

StepPre(q, c) ==
  CASE q[1] = "P0" -> IF LowB(c) = sURN[1] THEN To("P1", {"preS"}) ELSE Bad("prefix")
    [] q[1] = "P1" -> IF LowB(c) = sURN[2] THEN To("P2", {}) ELSE Bad("prefix")
    [] q[1] = "P2" -> IF LowB(c) = sURN[3] THEN To("P3", {}) ELSE Bad("prefix")
    [] q[1] = "P3" -> IF c = Colon THEN To("N0", {"preE"}) ELSE Bad("prefix")

----------------------------------------------------------------------------
(* RFC 2141: NID of 1..MaxNid, not "urn"; the word tracks a NID that is so  *)
(* far a prefix of "urn".                                                   *)

Step2141(q, c) ==
  CASE q[1] = "N0" ->
         IF c \in Alnum
         THEN On("N", 1, IF LowB(c) = 117 THEN "u" ELSE "", {"idS"})
         ELSE Bad("nid")
    [] q[1] = "N" ->
         IF c = Colon
         THEN IF q[3] = "urn" THEN Bad("urnid") ELSE To("S0", {"idE"})
         ELSE IF c \in Alnum \cup {Dash} /\ q[2] < MaxNid
         THEN On("N", q[2] + 1,
                 CASE q[3] = "u"  /\ LowB(c) = 114 -> "ur"
                   [] q[3] = "ur" /\ LowB(c) = 110 -> "urn"
                   [] OTHER -> "", {})
         ELSE Bad("nid")
    [] q[1] = "S0" -> IF c \in Sss THEN To("S", {"ssS"})
                      ELSE IF c = Pct THEN To("H1", {"ssS"}) ELSE Bad("nss")
    [] q[1] = "S"  -> IF c \in Sss THEN To("S", {})
                      ELSE IF c = Pct THEN To("H1", {}) ELSE BadEsc(q, "nss")
    [] q[1] = "H1" -> IF c \in Alnum THEN Esc("H2", "", c) ELSE Bad("hex")
    [] q[1] = "H2" -> IF c \in Alnum THEN Esc("S", "x", c) ELSE Bad("hex")

Finish2141(q) ==
  CASE q[1] \in {"N0", "N"}   -> Bad("nid")
    [] q[1] = "S0"            -> Bad("nss")
    [] q[1] = "S"             -> Acc({"ssE"})
    [] q[1] \in {"H1", "H2"}  -> Bad("hex")

----------------------------------------------------------------------------
(* RFC 7643 (SCIM)                                                          *)

TypeWords == [schemas |-> sSchemas, api |-> sApi, param |-> sParam]

Step7643(q, c) ==
  CASE q[1] = "N0" -> IF c = sSCIM[1] THEN On("L", 1, "", {"idS"}) ELSE Bad("scimns")
    [] q[1] = "L" ->
         IF q[2] < Len(sSCIM)
         THEN IF c = sSCIM[q[2] + 1] THEN On("L", q[2] + 1, "", {}) ELSE Bad("scimns")
         ELSE IF c = Colon THEN To("T0", {"idE"}) ELSE Bad("scimns")
    [] q[1] = "T0" ->
         IF \E w \in DOMAIN TypeWords : TypeWords[w][1] = c
         THEN On("T", 1, CHOOSE w \in DOMAIN TypeWords : TypeWords[w][1] = c, {"ssS"})
         ELSE Bad("scimtype")
    [] q[1] = "T" ->
         LET w == TypeWords[q[3]] IN
         IF q[2] < Len(w)
         THEN IF c = w[q[2] + 1] THEN On("T", q[2] + 1, q[3], {}) ELSE Bad("scimtype")
         ELSE IF c = Colon THEN To("M0", {"tyE"}) ELSE Bad("scimtype")
    [] q[1] = "M0" -> IF c \in Alnum THEN To("M", {"nmS"}) ELSE Bad("scimname")
    [] q[1] = "M"  -> IF c \in Alnum THEN To("M", {})
                      ELSE IF c = Colon THEN To("O0", {"nmE"}) ELSE Bad("scimname")
    [] q[1] = "O0" -> IF c \in Sss THEN To("O", {"otS"})
                      ELSE IF c = Pct THEN To("OH1", {"otS"}) ELSE Bad("scimother")
    [] q[1] = "O"  -> IF c \in Sss THEN To("O", {})
                      ELSE IF c = Pct THEN To("OH1", {}) ELSE Bad("scimother")
    [] q[1] = "OH1" -> IF c \in Alnum THEN Esc("OH2", "", c) ELSE Bad("scimother")
    [] q[1] = "OH2" -> IF c \in Alnum THEN Esc("O", "", c) ELSE Bad("scimother")

Finish7643(q) ==
  CASE q[1] \in {"N0", "L"}  -> Bad("scimns")
    [] q[1] \in {"T0", "T"}  -> Bad("scimtype")
    [] q[1] = "M0"           -> Bad("scimname")
    [] q[1] = "M"            -> Acc({"nmE", "ssE"})
    [] q[1] = "O"            -> Acc({"otE", "ssE"})
    \* deliberate deviation: reported on the last byte, not behind it
    [] q[1] \in {"O0", "OH1", "OH2"} -> BadAt("scimothereof", -1)

----------------------------------------------------------------------------
(* RFC 8141: NID of 2..MaxNid not starting or ending with a dash; the word  *)
(* tracks "urn-" and whether the NID may end here ("-": no).                *)

NidWord(n, w, c) ==
  CASE n = 0 /\ LowB(c) = 117 -> "u"
    [] n = 1 /\ w = "u"  /\ LowB(c) = 114 -> "ur"
    [] n = 2 /\ w = "ur" /\ LowB(c) = 110 -> "urn"
    [] n = 3 /\ w = "urn" /\ c = Dash -> "urn-"
    [] c = Dash -> "-"
    [] OTHER -> ""

\* The r-component: R0 at its start, R inside; then per byte read inside it:
\* RQ after "?", RQP after "?+" (another r-component, which there must not be,
\* unless a slash follows, which none can start with), RQE after "?=" (a
\* q-component may begin).  "rE" is provisional until the component ends.
\* The q-component: C0, C, CQ, CQE likewise; C0Q, C0QE, R0Q, R0QP: the same
\* right at the start of the component, where "?" is no pchar: doomed.
Doomed == {"R0QP", "C0QE"}

\* What, after a second marker, is taken for the start or end of a component
AfterMark == PChar \cup {Pct, Qm, Hash}

Step8141(q, c) ==
  CASE q[1] = "N0" -> IF c \in Alnum THEN On("N", 1, NidWord(0, "", c), {"idS"})
                      ELSE Bad("nid8141")
    [] q[1] = "N" ->
         IF c = Colon
         THEN IF q[2] >= 2 /\ q[3] \notin {"-", "urn-"} THEN To("S0", {"idE"})
              ELSE Bad("nid8141")
         ELSE IF q[3] = "urn-" /\ c \in Alpha \cup {48}
         THEN BadAt("informal", -1)          \* deliberate deviation: at the dash
         ELSE IF \/ c \in Alnum /\ q[2] < MaxNid
                 \/ c = Dash /\ q[2] < MaxNid - 1
         THEN On("N", q[2] + 1, NidWord(q[2], q[3], c), {})
         ELSE Bad("nid8141")
    [] q[1] = "S0" -> IF c \in PChar THEN To("S", {"ssS"})
                      ELSE IF c = Pct THEN To("H1", {"ssS"}) ELSE Bad("nss8141")
    [] q[1] = "S"  -> IF c \in PChar \cup {Slash} THEN To("S", {})
                      ELSE IF c = Pct THEN To("H1", {})
                      ELSE IF c = Qm THEN To("SQ", {"ssE"})
                      ELSE IF c = Hash THEN To("F0", {"ssE"}) ELSE BadEsc(q, "nss8141")
    [] q[1] = "H1" -> IF c \in Alnum THEN Esc("H2", "", c) ELSE Bad("hex")
    [] q[1] = "H2" -> IF c \in Alnum THEN Esc("S", "x", c) ELSE Bad("hex")
    [] q[1] = "SQ" -> IF c = Plus THEN To("R0", {})
                      ELSE IF c = Equ THEN To("C0", {}) ELSE Bad("components")
    \* r-component
    [] q[1] = "R0" -> IF c \in PChar THEN To("R", {"rS"})
                      ELSE IF c = Pct THEN To("RH1", {"rS"})
                      ELSE IF c = Qm THEN To("R0Q", {}) ELSE Bad("rcomp")
    [] q[1] = "R0Q" -> IF c = Plus THEN To("R0QP", {}) ELSE Bad("rcomp")
    [] q[1] = "R0QP" -> Bad(IF c \in AfterMark THEN "rstart" ELSE "rcomp")
    [] q[1] = "R"  -> IF c \in PChar \cup {Slash} THEN To("R", {})
                      ELSE IF c = Pct THEN To("RH1", {})
                      ELSE IF c = Qm THEN To("RQ", {"rE"})
                      ELSE IF c = Hash THEN To("F0", {"rE"}) ELSE BadEsc(q, "rcomp")
    [] q[1] = "RQ" -> IF c = Plus THEN To("RQP", {})
                      ELSE IF c = Equ THEN To("RQE", {})
                      ELSE IF c \in PChar \cup {Slash} THEN To("R", {})
                      ELSE IF c = Pct THEN To("RH1", {})
                      ELSE IF c = Qm THEN To("RQ", {"rE"})
                      ELSE IF c = Hash THEN To("F0", {"rE"}) ELSE Bad("rcomp")
    [] q[1] = "RQP" -> IF c = Slash THEN To("R", {})
                       ELSE Bad(IF c \in AfterMark THEN "rstart" ELSE "rcomp")
    [] q[1] = "RQE" -> IF c \in PChar THEN To("C", {"qS"})
                       ELSE IF c = Pct THEN To("CH1", {"qS"})
                       ELSE IF c = Slash THEN To("R", {})
                       ELSE IF c = Qm THEN To("RQ", {"rE"})
                       ELSE IF c = Hash THEN To("F0", {"rE"}) ELSE Bad("rcomp")
    [] q[1] = "RH1" -> IF c \in Alnum THEN Esc("RH2", "", c) ELSE Bad("hex")
    [] q[1] = "RH2" -> IF c \in Alnum THEN Esc("R", "x", c) ELSE Bad("hex")
    \* q-component
    [] q[1] = "C0" -> IF c \in PChar THEN To("C", {"qS"})
                      ELSE IF c = Pct THEN To("CH1", {"qS"})
                      ELSE IF c = Qm THEN To("C0Q", {}) ELSE Bad("qcomp")
    [] q[1] = "C0Q" -> IF c = Equ THEN To("C0QE", {}) ELSE Bad("qcomp")
    [] q[1] = "C0QE" -> Bad(IF c \in AfterMark THEN "qstart" ELSE "qcomp")
    [] q[1] = "C"  -> IF c \in PChar \cup {Slash} THEN To("C", {})
                      ELSE IF c = Pct THEN To("CH1", {})
                      ELSE IF c = Qm THEN To("CQ", {})
                      ELSE IF c = Hash THEN To("F0", {"qE"}) ELSE BadEsc(q, "qcomp")
    [] q[1] = "CQ" -> IF c = Equ THEN To("CQE", {})
                      ELSE IF c \in PChar \cup {Slash} THEN To("C", {})
                      ELSE IF c = Pct THEN To("CH1", {})
                      ELSE IF c = Qm THEN To("CQ", {})
                      ELSE IF c = Hash THEN To("F0", {"qE"}) ELSE Bad("qcomp")
    [] q[1] = "CQE" -> IF c = Slash THEN To("C", {})
                       ELSE Bad(IF c \in AfterMark THEN "qstart" ELSE "qcomp")
    [] q[1] = "CH1" -> IF c \in Alnum THEN Esc("CH2", "", c) ELSE Bad("hex")
    [] q[1] = "CH2" -> IF c \in Alnum THEN Esc("C", "x", c) ELSE Bad("hex")
    \* f-component
    [] q[1] \in {"F0", "F"} ->
         LET a == IF q[1] = "F0" THEN {"fS"} ELSE {} IN
         IF c \in PChar \cup {Slash, Qm} THEN To("F", a)
         ELSE IF c = Pct THEN To("FH1", a) ELSE BadEsc(q, "components")
    [] q[1] = "FH1" -> IF c \in Alnum THEN Esc("FH2", "", c) ELSE Bad("hex")
    [] q[1] = "FH2" -> IF c \in Alnum THEN Esc("F", "x", c) ELSE Bad("hex")

Finish8141(q) ==
  CASE q[1] \in {"N0", "N"} -> Bad("nid8141")
    [] q[1] = "S0" -> Bad("nss8141")
    [] q[1] = "S"  -> Acc({"ssE"})
    [] q[1] \in {"H1", "H2", "RH1", "RH2", "CH1", "CH2", "FH1", "FH2"} -> Bad("hex")
    [] q[1] = "SQ" -> Bad("components")
    [] q[1] \in {"R0", "R0Q"} -> Bad("rcomp")
    [] q[1] \in {"R0QP", "RQP"} -> Bad("rstart")
    [] q[1] \in {"R", "RQ", "RQE"} -> Acc({"rE"})
    [] q[1] \in {"C0", "C0Q"} -> Bad("qcomp")
    [] q[1] \in {"C0QE", "CQE"} -> Bad("qstart")
    [] q[1] \in {"C", "CQ"} -> Acc({"qE"})
    [] q[1] = "F0" -> Acc({"fS", "fE"})
    [] q[1] = "F"  -> Acc({"fE"})

----------------------------------------------------------------------------

Step(m, q, c) ==
  IF q[1] \in PrePhases THEN StepPre(q, c)
  ELSE CASE m = "2141" -> Step2141(q, c)
         [] m = "7643" -> Step7643(q, c)
         [] m = "8141" -> Step8141(q, c)

Finish(m, q) ==
  IF q[1] \in PrePhases THEN Bad("prefix")
  ELSE CASE m = "2141" -> Finish2141(q)
         [] m = "7643" -> Finish7643(q)
         [] m = "8141" -> Finish8141(q)

----------------------------------------------------------------------------
(* Registers and whole runs                                                 *)

Regs0 == [r \in Marks |-> -1]
Apply(regs, acts, p) == IF acts = {} THEN regs
                        ELSE [r \in Marks |-> IF r \in acts THEN p ELSE regs[r]]

\* A run in progress: q, regs, low (offsets to lowercase), dead, err, col
Run0 == [q |-> Start, regs |-> Regs0, low |-> {}, dead |-> FALSE, err |-> "", col |-> 0]

RunStep(m, run, c, p) ==
  IF run.dead THEN run
  ELSE LET s == Step(m, run.q, c) IN
       IF s.ok
       THEN [run EXCEPT !.q = s.q, !.regs = Apply(run.regs, s.acts, p),
                        !.low = IF "low" \in s.acts THEN @ \cup {p} ELSE @]
       ELSE [run EXCEPT !.dead = TRUE, !.err = s.err, !.col = p + s.off]

RunOver(m, s) == FoldLeftDomain(LAMBDA run, i : RunStep(m, run, s[i], i - 1), Run0, s)

KindOf(m) == CASE m = "2141" -> "RFC2141" [] m = "7643" -> "RFC7643" [] m = "8141" -> "RFC8141"

Part(s, regs, a, b) == IF regs[a] < 0 THEN <<>> ELSE Cut(s, regs[a], regs[b])

NoScim == [ty |-> "", nm |-> <<>>, ot |-> <<>>]

\* The URN that an accepting run of mode m over s yields, with final registers
Yield(m, s, regs, low) ==
  [pre  |-> Part(s, regs, "preS", "preE"),
   id   |-> Part(s, regs, "idS", "idE"),
   ss   |-> Part(s, regs, "ssS", "ssE"),
   r    |-> Part(s, regs, "rS", "rE"),
   q    |-> Part(s, regs, "qS", "qE"),
   f    |-> Part(s, regs, "fS", "fE"),
   kind |-> KindOf(m),
   scim |-> IF m # "7643" THEN NoScim
            ELSE [ty |-> CHOOSE w \in DOMAIN TypeWords :
                           TypeWords[w] = Part(s, regs, "ssS", "tyE"),
                  nm |-> Part(s, regs, "nmS", "nmE"),
                  ot |-> Part(s, regs, "otS", "otE")]]

\* What the parser's own record of escape letters makes of the SS
LowSS(s, regs, low) ==
  [i \in 1..(regs["ssE"] - regs["ssS"]) |->
     LET p == regs["ssS"] + i - 1 IN IF p \in low THEN s[p + 1] + 32 ELSE s[p + 1]]

End(m, run, s) ==
  IF run.dead THEN [ok |-> FALSE, err |-> run.err, col |-> run.col]
  ELSE LET e == Finish(m, run.q) IN
       IF ~e.ok THEN [ok |-> FALSE, err |-> e.err, col |-> Len(s) + e.off]
       ELSE LET regs == Apply(run.regs, e.acts, Len(s)) IN
            [ok |-> TRUE, urn |-> Yield(m, s, regs, run.low),
             norm |-> LowSS(s, regs, run.low)]

Outcome(m, s) == End(m, RunOver(m, s), s)

----------------------------------------------------------------------------
(* Error texts *)

ErrText ==
  [prefix |-> "expecting the prefix to be the \"urn\" string (whatever case)",
   nid    |-> "expecting the identifier to be string (1..31 alnum chars, also containing dashes but not at its beginning)",
   nss    |-> "expecting the specific string to be a string containing alnum, hex, or others ([()+,-.:=@;$_!*']) chars",
   urnid  |-> "expecting the identifier to not contain the \"urn\" reserved string",
   hex    |-> "expecting the percent encoded chars to be well-formed (%alnum{2})",
   scimns |-> "expecing the SCIM namespace identifier (ietf:params:scim)",
   scimtype |-> "expecting a correct SCIM type (schemas, api, param)",
   scimname |-> "expecting one or more alnum char in the SCIM name part",
   scimother |-> "expecting a well-formed other SCIM part",
   scimothereof |-> "expecting a not empty SCIM other part after colon",
   informal |-> "informal URN namespace must be in the form urn-[1-9][0-9]",
   nss8141 |-> "expecting the specific string to contain alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] not in first position) chars",
   nid8141 |-> "expecting the indentifier to be a string with (length 2 to 32 chars) containing alnum (or dashes) not starting or ending with a dash",
   rstart |-> "expecting only one r-component (starting with the ?+ sequence)",
   qstart |-> "expecting only one q-component (starting with the ?= sequence)",
   rcomp  |-> "expecting a non-empty r-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning)",
   qcomp  |-> "expecting a non-empty q-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning)",
   components |-> "expecting only well-formed r-component, q-component, and f-component after the specific string"]

ErrKinds == DOMAIN ErrText
ErrString(e, col) == ErrText[e] \o " [col " \o ToString(col) \o "]"
=============================================================================
