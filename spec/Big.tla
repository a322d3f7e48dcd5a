-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Natural numbers of any size: little-endian limbs in base 10^4, no       *)
(* leading zero limb (zero is <<>>).  TLC integers are 32-bit; file        *)
(* offsets and data-unit sizes are not.                                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

BASE == 10000

RECURSIVE BNorm(_)
BNorm(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN BNorm(SubSeq(x, 1, Len(x) - 1)) ELSE x

RECURSIVE BFrom(_)
BFrom(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o BFrom(n \div BASE)

BLimb(x, i) == IF i <= Len(x) THEN x[i] ELSE 0

RECURSIVE BAddC(_, _, _, _)
BAddC(x, y, i, c) ==
  IF i > Len(x) /\ i > Len(y) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == BLimb(x, i) + BLimb(y, i) + c
       IN <<t % BASE>> \o BAddC(x, y, i + 1, t \div BASE)
BAdd(x, y) == BAddC(x, y, 1, 0)

RECURSIVE BMulS(_, _, _, _)
BMulS(x, k, i, c) ==          \* x * k, k < BASE
  IF i > Len(x) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == x[i] * k + c IN <<t % BASE>> \o BMulS(x, k, i + 1, t \div BASE)
BMulSmall(x, k) == BNorm(BMulS(x, k, 1, 0))

RECURSIVE BMulFrom(_, _, _)
BMulFrom(x, y, j) ==
  IF j > Len(y) THEN <<>>
  ELSE LET hi == BMulFrom(x, y, j + 1)
       IN BAdd(BMulSmall(x, y[j]), IF hi = <<>> THEN <<>> ELSE <<0>> \o hi)
BMul(x, y) == BNorm(BMulFrom(x, y, 1))

\* comparison: -1, 0, 1
RECURSIVE BCmpFrom(_, _, _)
BCmpFrom(x, y, i) ==
  IF i = 0 THEN 0
  ELSE IF x[i] < y[i] THEN -1 ELSE IF x[i] > y[i] THEN 1 ELSE BCmpFrom(x, y, i - 1)
BCmp(x, y) == IF Len(x) < Len(y) THEN -1 ELSE IF Len(x) > Len(y) THEN 1 ELSE BCmpFrom(x, y, Len(x))
BLe(x, y) == BCmp(x, y) <= 0

\* x \div k and x % k for a small divisor k (k * BASE must stay below 2^31)
RECURSIVE BDivFrom(_, _, _, _)
BDivFrom(x, k, i, r) ==
  IF i = 0 THEN [q |-> <<>>, r |-> r]
  ELSE LET t == r * BASE + x[i]
           d == BDivFrom(x, k, i - 1, t % k)
       IN [q |-> d.q \o <<t \div k>>, r |-> d.r]
BDivMod(x, k) == LET d == BDivFrom(x, k, Len(x), 0) IN [q |-> BNorm(d.q), r |-> d.r]

\* does it fit a TLC integer (below 10^9)?
BFits(x) == Len(x) <= 2 \/ (Len(x) = 3 /\ x[3] <= 9)
BToInt(x) == BLimb(x, 1) + BLimb(x, 2) * BASE + BLimb(x, 3) * BASE * BASE

\* from decimal digits (sequence of 0..9, most significant first)
RECURSIVE SmallDec(_, _)
SmallDec(s, acc) == IF s = <<>> THEN acc ELSE SmallDec(Tail(s), acc * 10 + Head(s))
RECURSIVE BFromDigits(_)
BFromDigits(d) ==
  IF d = <<>> THEN <<>>
  ELSE LET n == Len(d)
           lo == IF n >= 4 THEN SubSeq(d, n - 3, n) ELSE d
           hi == IF n >= 4 THEN SubSeq(d, 1, n - 4) ELSE <<>>
       IN <<SmallDec(lo, 0)>> \o BFromDigits(hi)
BDec(d) == BNorm(BFromDigits(d))

U64MAX == BDec(<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>)
I64MAX == BDec(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>)
I64MINABS == BDec(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>)
=============================================================================
