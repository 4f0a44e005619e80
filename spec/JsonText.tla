------------------------------ MODULE JsonText ------------------------------
(* JSON texts that are strings: which byte strings are one, and what they     *)
(* decode to (RFC 8259; UTF-8).  Everything else is "not a string".  Bytes    *)
(* above 127 stand for themselves, provided that they are well-formed UTF-8.  *)
EXTENDS Bytes

JWs == {32, 9, 10, 13}
JQuote == 34  JBack == 92
HexDigit == Digit \cup (65..70) \cup (97..102)
HexVal(c) == IF c \in Digit THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55

\* UTF-8 of a code point
Utf8(u) == IF u < 128 THEN <<u>>
           ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
           ELSE IF u < 65536 THEN <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
           ELSE <<240 + (u \div 262144), 128 + ((u \div 4096) % 64),
                  128 + ((u \div 64) % 64), 128 + (u % 64)>>

JBad == [ok |-> FALSE, str |-> <<>>]
Simple == {34, 92, 47, 98, 102, 110, 114, 116}
SimpleVal(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13
                  [] c = 116 -> 9 [] OTHER -> c

HasU(s, i) == /\ i + 5 <= Len(s) /\ s[i] = JBack /\ s[i+1] = 117
              /\ \A k \in 2..5 : s[i + k] \in HexDigit
UVal(s, i) == ((HexVal(s[i+2]) * 16 + HexVal(s[i+3])) * 16 + HexVal(s[i+4])) * 16 + HexVal(s[i+5])
Hi(u) == u \in 55296..56319
Lo(u) == u \in 56320..57343

\* From byte i on, inside the quotes: the rest of the string, then only spaces
RECURSIVE JRest(_, _, _)
JRest(s, i, acc) ==
  IF i > Len(s) THEN JBad
  ELSE IF s[i] = JQuote
  THEN IF \A k \in (i + 1)..Len(s) : s[k] \in JWs THEN [ok |-> TRUE, str |-> acc] ELSE JBad
  ELSE IF s[i] < 32 THEN JBad
  ELSE IF s[i] # JBack THEN JRest(s, i + 1, Append(acc, s[i]))
  ELSE IF i + 1 <= Len(s) /\ s[i+1] \in Simple
  THEN JRest(s, i + 2, Append(acc, SimpleVal(s[i+1])))
  ELSE IF ~HasU(s, i) THEN JBad
  ELSE LET u == UVal(s, i) IN
       IF Hi(u) /\ HasU(s, i + 6) /\ Lo(UVal(s, i + 6))
       THEN JRest(s, i + 12, acc \o Utf8(65536 + (u - 55296) * 1024 + (UVal(s, i + 6) - 56320)))
       ELSE IF Hi(u) \/ Lo(u) THEN JRest(s, i + 6, acc \o <<239, 191, 189>>)   \* U+FFFD
       ELSE JRest(s, i + 6, acc \o Utf8(u))

JDecode(s) ==
  LET start == {i \in 1..Len(s) : s[i] \notin JWs} IN
  IF start = {} THEN JBad
  ELSE LET i == CHOOSE i \in start : \A k \in start : i <= k IN
       IF s[i] = JQuote THEN JRest(s, i + 1, <<>>) ELSE JBad
=============================================================================
