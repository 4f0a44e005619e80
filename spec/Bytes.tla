------------------------------- MODULE Bytes -------------------------------
(* Bytes, byte classes and byte strings (sequences of 0..255).             *)
EXTENDS Integers, Sequences

CONSTANT MaxNid            \* 32 in the code; small in some bounded models

Byte  == 0..255
Digit == 48..57
Upper == 65..90
Lower == 97..122
Alpha == Upper \cup Lower
Alnum == Alpha \cup Digit

Colon == 58   Dash  == 45   Pct   == 37   Qm    == 63
Plus  == 43   Equ   == 61   Slash == 47   Hash  == 35
Tilde == 126  Amp   == 38   LF    == 10   CR    == 13
Underscore == 95

\* ( ) + , - . : = @ ; $ _ ! * '
SssOther == {40, 41, 43, 44, 45, 46, 58, 61, 64, 59, 36, 95, 33, 42, 39}
Sss      == Alnum \cup SssOther          \* RFC 2141 specific characters
PChar    == Sss \cup {Tilde, Amp}        \* RFC 8141 pchar, escapes apart

LowB(c) == IF c \in Upper THEN c + 32 ELSE c
LowS(s) == [i \in 1..Len(s) |-> LowB(s[i])]

\* The part of s from 0-based offset a up to (not including) offset b
Cut(s, a, b) == SubSeq(s, a + 1, b)

sURN     == <<117, 114, 110>>
sSCIM    == <<105, 101, 116, 102, 58, 112, 97, 114, 97, 109, 115, 58,
              115, 99, 105, 109>>        \* ietf:params:scim
sSchemas == <<115, 99, 104, 101, 109, 97, 115>>
sApi     == <<97, 112, 105>>
sParam   == <<112, 97, 114, 97, 109>>
=============================================================================
