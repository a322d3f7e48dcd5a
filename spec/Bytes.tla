------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings as sequences of 0..255, text as sequences of code points.  *)
(* Everything the reader consumes or reports is one of these two.          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC
LOCAL SX == INSTANCE SequencesExt
\* op(...op(op(base, s[1]), s[2])..., s[Len(s)])
Fold(op(_, _), base, s) == SX!FoldLeft(op, base, s)
UpTo(n) == <<>> \o [ i \in 1..n |-> i ]

SP == 32
QUOTE == 39
AMP == 38
SLASH == 47
EQUALS == 61
REPL == 65533          \* U+FFFD

\* a sequence, evaluated element by element now rather than at every use (TLC)
Force(s) == <<>> \o s

\* printable ASCII 32..126, in order (two characters need a TLA+ escape)
AsciiTab ==
  " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == ([ c \in { SubSeq(AsciiTab, i, i) : i \in 1..95 } |->
              31 + (CHOOSE i \in 1..95 : SubSeq(AsciiTab, i, i) = c) ])

\* TLA+ string -> code points
S(str) == Force([ i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)] ])

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

Slice(s, from, to) == IF to < from THEN <<>> ELSE SubSeq(s, from, to)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
LastIs(s, c) == s # <<>> /\ s[Len(s)] = c
FirstIs(s, c) == s # <<>> /\ s[1] = c

IsDigit(c) == c >= 48 /\ c <= 57
IsPrint(c) == c >= 32 /\ c <= 126
IsAsciiWs(c) == c \in {32, 9, 10, 12, 13}

RECURSIVE TrimEndFrom(_, _, _)
TrimEndFrom(s, n, W) == IF n = 0 \/ s[n] \notin W THEN n ELSE TrimEndFrom(s, n - 1, W)
RECURSIVE TrimStartFrom(_, _, _)
TrimStartFrom(s, i, W) == IF i > Len(s) \/ s[i] \notin W THEN i ELSE TrimStartFrom(s, i + 1, W)

WS == {32, 9, 10, 12, 13}
TrimEndSet(s, W) == SubSeq(s, 1, TrimEndFrom(s, Len(s), W))
TrimStartSet(s, W) == LET i == TrimStartFrom(s, 1, W) IN Slice(s, i, Len(s))
TrimEnd(s) == TrimEndSet(s, WS)
TrimStart(s) == TrimStartSet(s, WS)
Trim(s) == TrimEnd(TrimStart(s))

\* position of the first occurrence of c in s, 0 if none
RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE IndexFrom(s, c, i + 1)
IndexOf(s, c) == IndexFrom(s, c, 1)

Fill(n, b) == Force([ i \in 1..n |-> b ])

(***************************************************************************)
(* Lossy UTF-8 decoding (one U+FFFD per maximal invalid sub-sequence).     *)
(***************************************************************************)
IsCont(b) == b >= 128 /\ b <= 191
\* number of bytes of the code point starting at s[i] when valid, else 0
SeqLen(s, i) ==
  LET b == s[i]
      B(k) == IF i + k <= Len(s) THEN s[i + k] ELSE -1
      C(k) == IsCont(B(k))
  IN IF b < 128 THEN 1
     ELSE IF b >= 194 /\ b <= 223 THEN (IF C(1) THEN 2 ELSE 0)
     ELSE IF b >= 224 /\ b <= 239 THEN
       LET ok1 == IF b = 224 THEN B(1) >= 160 /\ B(1) <= 191
                  ELSE IF b = 237 THEN B(1) >= 128 /\ B(1) <= 159
                  ELSE C(1)
       IN IF ok1 /\ C(2) THEN 3 ELSE 0
     ELSE IF b >= 240 /\ b <= 244 THEN
       LET ok1 == IF b = 240 THEN B(1) >= 144 /\ B(1) <= 191
                  ELSE IF b = 244 THEN B(1) >= 128 /\ B(1) <= 143
                  ELSE C(1)
       IN IF ok1 /\ C(2) /\ C(3) THEN 4 ELSE 0
     ELSE 0
\* number of bytes one U+FFFD stands for, at an invalid s[i]
BadLen(s, i) ==
  LET b == s[i]
      B(k) == IF i + k <= Len(s) THEN s[i + k] ELSE -1
      C(k) == IsCont(B(k))
  IN IF b >= 224 /\ b <= 239 THEN
       LET ok1 == IF b = 224 THEN B(1) >= 160 /\ B(1) <= 191
                  ELSE IF b = 237 THEN B(1) >= 128 /\ B(1) <= 159
                  ELSE C(1)
       IN IF ok1 THEN 2 ELSE 1
     ELSE IF b >= 240 /\ b <= 244 THEN
       LET ok1 == IF b = 240 THEN B(1) >= 144 /\ B(1) <= 191
                  ELSE IF b = 244 THEN B(1) >= 128 /\ B(1) <= 143
                  ELSE C(1)
       IN IF ok1 THEN (IF C(2) THEN 3 ELSE 2) ELSE 1
     ELSE 1
CodePoint(s, i, n) ==
  CASE n = 1 -> s[i]
    [] n = 2 -> (s[i] - 192) * 64 + (s[i+1] - 128)
    [] n = 3 -> (s[i] - 224) * 4096 + (s[i+1] - 128) * 64 + (s[i+2] - 128)
    [] n = 4 -> (s[i] - 240) * 262144 + (s[i+1] - 128) * 4096 + (s[i+2] - 128) * 64 + (s[i+3] - 128)
RECURSIVE LossyFrom(_, _)
LossyFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET n == SeqLen(s, i) IN
       IF n > 0 THEN <<CodePoint(s, i, n)>> \o LossyFrom(s, i + n)
       ELSE <<REPL>> \o LossyFrom(s, i + BadLen(s, i))
AllAscii(s) == \A i \in 1..Len(s) : s[i] < 128
Lossy(s) == IF AllAscii(s) THEN s ELSE LossyFrom(s, 1)
RECURSIVE ValidFrom(_, _)
ValidFrom(s, i) == IF i > Len(s) THEN TRUE
                   ELSE LET n == SeqLen(s, i) IN n > 0 /\ ValidFrom(s, i + n)
ValidUtf8(s) == AllAscii(s) \/ ValidFrom(s, 1)
=============================================================================
