-------------------------------- MODULE Rice -------------------------------
(***************************************************************************)
(* The RICE_1 code for 32-bit integers.  A 32-bit word is [h, l], two      *)
(* 16-bit halves (TLC integers are 32-bit themselves).                     *)
(*                                                                         *)
(* A stream is: the first pixel (32 bits), then per block of nb pixels a   *)
(* 5-bit code c and the differences to the previous pixel, mapped to       *)
(* naturals (2d for d >= 0, -2d-1 below):                                  *)
(*   c = 0        all differences are zero, nothing is stored              *)
(*   c = 26       every difference as 32 plain bits                        *)
(*   1..25        fs = c - 1: difference \div 2^fs in unary (zeros, then a *)
(*                one), then its fs low bits                               *)
(***************************************************************************)
EXTENDS Bytes

W(h, l) == [h |-> h, l |-> l]
Pow2 == Force([ i \in 1..31 |-> IF i = 1 THEN 1 ELSE 2 ^ (i - 1) ])
P2(n) == Pow2[n + 1]                       \* n in 0..30
WZero == W(0, 0)
WAdd(a, b) == LET l == a.l + b.l IN W((a.h + b.h + (l \div 65536)) % 65536, l % 65536)
WNot(a) == W(65535 - a.h, 65535 - a.l)
WSub(a, b) == WAdd(a, WAdd(WNot(b), W(0, 1)))
WHalf(a) == W(a.h \div 2, (a.l \div 2) + (a.h % 2) * 32768)
WDouble(a) == W((a.h * 2 + (a.l \div 32768)) % 65536, (a.l * 2) % 65536)
WNeg(a) == a.h >= 32768
\* signed difference <-> natural
Mapped(d) == IF WNeg(d) THEN WNot(WDouble(d)) ELSE WDouble(d)
Unmapped(m) == IF m.l % 2 = 0 THEN WHalf(m) ELSE WNot(WHalf(m))

WBytes(a) == <<a.h \div 256, a.h % 256, a.l \div 256, a.l % 256>>      \* big endian
WFromBytes(b, i) == W(b[i] * 256 + b[i + 1], b[i + 2] * 256 + b[i + 3])

(***************************************************************************)
(* Decoding.  pos: bits consumed.  The result is [st, px]; st is "ok", or  *)
(* "short" when the stream ends early, or "odd" when a code is none of the *)
(* above or a run of zeros is longer than any difference needs.            *)
(***************************************************************************)
BitAt(s, p) == (s[p \div 8 + 1] \div P2(7 - (p % 8))) % 2
\* n <= 16 bits from bit p on
RECURSIVE BitsFrom(_, _, _, _)
BitsFrom(s, p, n, acc) ==
  IF n = 0 THEN acc
  ELSE LET k == Min2(8 - (p % 8), n)           \* bits of this byte
           v == (s[p \div 8 + 1] \div P2(8 - (p % 8) - k)) % P2(k)
       IN BitsFrom(s, p + k, n - k, acc * P2(k) + v)
Bits(s, p, n) == BitsFrom(s, p, n, 0)
HasBits(s, p, n) == p + n <= 8 * Len(s)
\* position of the next one bit, -1 if there is none
RECURSIVE NextOne(_, _)
NextOne(s, p) ==
  IF p >= 8 * Len(s) THEN -1
  ELSE IF p % 8 = 0 /\ s[p \div 8 + 1] = 0 THEN NextOne(s, p + 8)
  ELSE IF BitAt(s, p) = 1 THEN p ELSE NextOne(s, p + 1)

\* nz * 2^fs + low bits as a word (nz < 2^13)
Shifted(nz, fs, lo) ==
  IF fs <= 16 THEN LET t == nz * P2(fs) + lo.l IN W(((t \div 65536) + lo.h) % 65536, t % 65536)
  ELSE W((nz * P2(fs - 16) + lo.h) % 65536, lo.l)
LowBits(s, p, fs) == IF fs <= 16 THEN W(0, Bits(s, p, fs))
                     ELSE W(Bits(s, p, fs - 16), Bits(s, p + fs - 16, 16))

\* only pixels lo..hi-1 (0-based) are kept.  The state is [st, p, i, last, px]: st is "run" as long
\* as the stream can be followed, p the bits consumed, i the pixels done, last the last pixel
Ended(a, st) == [a EXCEPT !.st = st]
Got(a, p, px, lo, hi) ==
  [a EXCEPT !.p = p, !.i = a.i + 1, !.last = px,
            !.px = IF a.i >= lo /\ a.i < hi THEN Append(a.px, px) ELSE a.px]
DecPixel(s, a, c, lo, hi) ==
  IF a.st # "run" THEN a
  ELSE IF c = 26 THEN
    IF ~HasBits(s, a.p, 32) THEN Ended(a, "short")
    ELSE Got(a, a.p + 32, WAdd(a.last, Unmapped(W(Bits(s, a.p, 16), Bits(s, a.p + 16, 16)))), lo, hi)
  ELSE
    LET fs == c - 1
        one == NextOne(s, a.p)
    IN IF one = -1 \/ ~HasBits(s, one + 1, fs) THEN Ended(a, "short")
       ELSE IF one - a.p >= 8192 THEN Ended(a, "odd")
       ELSE Got(a, one + 1 + fs, WAdd(a.last, Unmapped(Shifted(one - a.p, fs, LowBits(s, one + 1, fs)))), lo, hi)
DecBlock(s, a, n, nb, lo, hi) ==
  IF a.st # "run" THEN a
  ELSE IF ~HasBits(s, a.p, 5) THEN Ended(a, "short")
  ELSE LET c == Bits(s, a.p, 5)
           m == Min2(nb, n - a.i)
           keep == Min2(a.i + m, hi) - Max2(a.i, lo)
           step(x, j) == DecPixel(s, x, c, lo, hi)
       IN IF c = 0 THEN [a EXCEPT !.p = a.p + 5, !.i = a.i + m,
                                  !.px = IF keep > 0 THEN a.px \o Fill(keep, a.last) ELSE a.px]
          ELSE IF c > 26 THEN Ended(a, "odd")
          ELSE Fold(step, [a EXCEPT !.p = a.p + 5], UpTo(m))

\* pixels lo..hi-1 of n pixels in blocks of nb
DecodeWindow(s, n, nb, lo, hi) ==
  IF ~HasBits(s, 0, 32) THEN [st |-> "short", px |-> <<>>]
  ELSE IF nb = 0 THEN [st |-> "odd", px |-> <<>>]
  ELSE LET step(a, j) == DecBlock(s, a, n, nb, lo, hi)
           z == Fold(step, [st |-> "run", p |-> 32, i |-> 0, last |-> WFromBytes(s, 1), px |-> <<>>],
                     UpTo((n + nb - 1) \div nb))
       IN [st |-> IF z.st = "run" THEN "ok" ELSE z.st, px |-> z.px]
Decode(s, n, nb) == DecodeWindow(s, n, nb, 0, n)
=============================================================================
