------------------------------ MODULE Buffers ------------------------------
(* The caller's buffers.  Texts and JSON lie in windows of byte buffers that   *)
(* the caller fills, parses from (also overlapping windows, and the same       *)
(* buffer again and again), and fills anew.  What parsing gave is a value: no   *)
(* later filling shows in it, and parsing leaves the buffer as it was.          *)
(*                                                                              *)
(* Every transition is exported with a shortest history leading to it, and      *)
(* replayed on real buffers.                                                    *)
EXTENDS UrnValues, UrnGrammar, Json

CONSTANTS
  Design,      \* "copies": the library.  The others are wrong ways to build one:
               \* "aliases" keeps windows instead of text, "lowers" writes lowered
               \* escapes to the buffer, "late" words the error when asked for it
  Window,      \* what of a buffer is parsed: subset of DOMAIN Windows
  MaxDepth

VARIABLES buf,   \* buffer -> content
          held,  \* slot -> what is held of a parse
          recv,  \* receivers of unmarshalling, likewise
          merr,  \* what is held of the machine's last error
          hist, last
vars == <<buf, held, recv, merr, hist, last>>
core == <<buf, held, recv, merr>>

Nil == [nil |-> TRUE]
Buf == {1, 2}
Slot == {"s1", "s2"}
Ty == {"URN", "URN8141", "SCIM"}

----------------------------------------------------------------------------
(* Contents, all of one length: JSON strings with a URN between the quotes     *)
q1 == <<34>>
Contents == <<
  q1 \o sURN \o <<58>> \o sSCIM \o <<58>> \o sApi \o <<58, 120, 58, 37, 65, 98>> \o q1,  \* urn:ietf:params:scim:api:x:%Ab
  \* URN:aA:%AB?+r%4Ar?=q%Cdqqqq#ff, in RFC 8141 mode only
  q1 \o <<85, 82, 78, 58, 97, 65, 58, 37, 65, 66, 63, 43, 114, 37, 52, 65, 114, 63, 61, 113, 37, 67, 100,
          113, 113, 113, 113, 35, 102, 102>> \o q1,
  \* urn:bb:zz%FFzz%aZyyyyyyyyyy%GG, in RFC 2141 and 8141 mode, error columns far behind if cut
  q1 \o <<117, 114, 110, 58, 98, 98, 58, 122, 122, 37, 70, 70, 122, 122, 37, 97, 90,
          121, 121, 121, 121, 121, 121, 121, 121, 121, 121, 37, 71, 71>> \o q1,
  \* urn:bb:zzz?+?+..., wrong in every mode
  q1 \o <<117, 114, 110, 58, 98, 98, 58, 122, 122, 37, 70, 70, 63, 43, 97, 63, 43, 97,
          121, 121, 121, 121, 121, 121, 121, 121, 121, 35, 71, 71>> \o q1 >>
N == Len(Contents[1])
ASSUME \A i \in DOMAIN Contents : Len(Contents[i]) = N

\* [from, to] in a buffer: the JSON, the text in it, cut short, cut in an
\* escape, from the middle, nothing
Windows == << <<1, N>>, <<2, N - 1>>, <<2, N - 4>>, <<2, 10>>, <<6, N - 1>>, <<2, 1>> >>
At(b, w) == SubSeq(b, Windows[w][1], Windows[w][2])

ParsesIn(m, t) == Outcome(m, t)
PR == [m \in Modes |-> [c \in DOMAIN Contents |-> [w \in DOMAIN Windows |-> Outcome(m, At(Contents[c], w))]]]

\* fillings keep contents whole, so a buffer is the number of its content,
\* until a wrong design writes to it
Text1(b) == buf[b]
Of(m, b, w) == IF \E c \in DOMAIN Contents : Contents[c] = buf[b]
               THEN PR[m][CHOOSE c \in DOMAIN Contents : Contents[c] = buf[b]][w]
               ELSE Outcome(m, At(buf[b], w))

\* json decoding of what is in the buffer: only the first window is JSON
Inner(s) == SubSeq(s, 2, Len(s) - 1)

----------------------------------------------------------------------------
(* What is held, and what can be read of it now                                *)
Hold(m, b, w, o) == IF Design = "copies" THEN [nil |-> FALSE, o |-> o]
                    ELSE [nil |-> FALSE, o |-> o, m |-> m, b |-> b, w |-> w]
Now(h) ==
  IF h = Nil THEN Nil
  ELSE IF Design = "aliases" /\ h.o.ok THEN
    \* the parts, found once, point into the buffer
    LET t == At(buf[h.b], h.w)
        k == 4 + Len(h.o.urn.id)
    IN [ok |-> TRUE, urn |-> [h.o.urn EXCEPT !.ss = SubSeq(t, k + 2, k + 1 + Len(h.o.urn.ss))]]
  ELSE IF Design = "late" /\ ~h.o.ok THEN
    LET o == Outcome(h.m, At(buf[h.b], h.w)) IN IF o.ok THEN [ok |-> FALSE, err |-> ""] ELSE [ok |-> FALSE, err |-> ErrString(o.err, o.col)]
  ELSE IF h.o.ok THEN [ok |-> TRUE, urn |-> h.o.urn]
  ELSE [ok |-> FALSE, err |-> ErrString(h.o.err, h.o.col)]

\* what parsing leaves in the buffer
Left(m, b, w) ==
  IF Design # "lowers" THEN buf[b]
  ELSE LET t == At(buf[b], w)
           x == IF t = <<>> THEN t ELSE NormSS(t)
       IN [i \in 1..N |-> IF i >= Windows[w][1] /\ i <= Windows[w][2] THEN x[i - Windows[w][1] + 1] ELSE buf[b][i]]

Do(rec) == last' = rec /\ hist' = Append(hist, rec)

Init == /\ buf = [b \in Buf |-> Contents[b]]
        /\ held = [s \in Slot |-> Nil]
        /\ recv = [t \in Ty |-> Nil]
        /\ merr = Nil
        /\ hist = <<>> /\ last = [op |-> "none"]

Fill(b, c) ==
  /\ buf' = [buf EXCEPT ![b] = Contents[c]] /\ buf' # buf
  /\ UNCHANGED <<held, recv, merr>>
  /\ Do([op |-> "fill", b |-> b, c |-> c])

\* by the one machine, switched to the mode; or by the package-level Parse
MParse(m, b, w, s) ==
  LET h == Hold(m, b, w, Of(m, b, w)) IN
  /\ held' = [held EXCEPT ![s] = h] /\ merr' = h
  /\ buf' = [buf EXCEPT ![b] = Left(m, b, w)]
  /\ UNCHANGED recv
  /\ Do([op |-> "bparse", m |-> "m1", x |-> m, b |-> b, w |-> Windows[w], s |-> s])
PParse(m, b, w, s) ==
  LET h == Hold(m, b, w, Of(m, b, w)) IN
  /\ held' = [held EXCEPT ![s] = h]
  /\ buf' = [buf EXCEPT ![b] = Left(m, b, w)]
  /\ UNCHANGED <<recv, merr>>
  /\ Do([op |-> "bpparse", opts |-> <<m>>, b |-> b, w |-> Windows[w], s |-> s])

Unm(ty, b) ==
  LET m == TypeMode(ty)
      h == Hold(m, b, 2, Of(m, b, 2)) IN
  /\ recv' = [recv EXCEPT ![ty] = IF h.o.ok THEN h ELSE @]
  /\ UNCHANGED <<buf, held, merr>>
  /\ Do([op |-> "bunm", ty |-> ty, b |-> b])

Next == /\ Len(hist) < MaxDepth
        /\ \E b \in Buf :
             \/ \E c \in DOMAIN Contents : Fill(b, c)
             \/ \E m \in Modes, w \in Window, s \in Slot : MParse(m, b, w, s) \/ PParse(m, b, w, s)
             \/ \E ty \in Ty : Unm(ty, b)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
NowAll == [held |-> [s \in Slot |-> Now(held[s])], recv |-> [t \in Ty |-> Now(recv[t])], merr |-> Now(merr)]

\* C10: whatever is written to the buffers, what was parsed stays
Lasting == [][last'.op = "fill" => NowAll' = NowAll]_vars
\* C10: parsing leaves the buffers alone
Untouched == [][last'.op # "fill" => buf' = buf]_vars
\* and only the slot it is given changes
Contained == [][\A s \in Slot : Now(held[s])' # Now(held[s]) => last'.op \in {"bparse", "bpparse"} /\ last'.s = s]_vars

----------------------------------------------------------------------------
Seen(h) == IF h = Nil \/ ~h.o.ok THEN Nil ELSE Project(h.o.urn)
After0 == [hist |-> hist', vals |-> [s \in Slot |-> Seen(held'[s])],
           mach |-> [m1 |-> IF merr' = Nil \/ merr'.o.ok THEN [err |-> ""] ELSE [err |-> ErrString(merr'.o.err, merr'.o.col)]],
           recv |-> [URN |-> IF recv'["URN"] = Nil THEN Project(Zero) ELSE Seen(recv'["URN"]),
                     URN8141 |-> Seen(recv'["URN8141"]),
                     SCIM |-> ProjectScim(IF recv'["SCIM"] = Nil THEN NoScim ELSE recv'["SCIM"].o.urn.scim)]]
Export == PrintT("STEP " \o ToJson(After0))
ASSUME PrintT("TEXTS " \o ToJson(Contents))
=============================================================================
