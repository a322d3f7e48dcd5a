------------------------------- MODULE Quant -------------------------------
(***************************************************************************)
(* Restoring quantized floating-point pixels.                              *)
(* Numbers are dyadic: [neg, m, e] stands for (-1)^neg * m * 2^e with m a  *)
(* natural of any size.                                                    *)
(***************************************************************************)
EXTENDS Big, Rice

RECURSIVE BShl(_, _)
BShl(x, n) == IF n = 0 \/ x = <<>> THEN x ELSE IF n <= 12 THEN BMulSmall(x, P2(n)) ELSE BShl(BMulSmall(x, 4096), n - 12)
\* x - y for x >= y
RECURSIVE BSubC(_, _, _, _)
BSubC(x, y, i, c) ==
  IF i > Len(x) THEN <<>>
  ELSE LET t == x[i] - BLimb(y, i) - c IN
       <<IF t < 0 THEN t + BASE ELSE t>> \o BSubC(x, y, i + 1, IF t < 0 THEN 1 ELSE 0)
BSub(x, y) == BNorm(BSubC(x, y, 1, 0))

Dy(neg, m, e) == [neg |-> neg, m |-> m, e |-> e]
DyZero == Dy(FALSE, <<>>, 0)
DyInt(n) == IF n < 0 THEN Dy(TRUE, BFrom(-n), 0) ELSE Dy(FALSE, BFrom(n), 0)
DyMul(a, b) == Dy(a.neg # b.neg, BMul(a.m, b.m), a.e + b.e)
DyAbs(a) == [a EXCEPT !.neg = FALSE]
DyNeg(a) == [a EXCEPT !.neg = ~a.neg]
DyAdd(a, b) ==
  IF a.m = <<>> THEN b ELSE IF b.m = <<>> THEN a
  ELSE LET e == Min2(a.e, b.e)
           x == BShl(a.m, a.e - e)
           y == BShl(b.m, b.e - e)
       IN IF a.neg = b.neg THEN Dy(a.neg, BAdd(x, y), e)
          ELSE IF BLe(y, x) THEN Dy(a.neg, BSub(x, y), e) ELSE Dy(b.neg, BSub(y, x), e)
DySub(a, b) == DyAdd(a, DyNeg(b))
DyLe(a, b) == LET d == DySub(b, a) IN d.m = <<>> \/ ~d.neg        \* a <= b

\* IEEE single and double precision, big-endian bytes; ok = FALSE: not finite, or too extreme to follow
FromF32(b) ==
  LET ex == (b[1] % 128) * 2 + (b[2] \div 128)
      fr == (b[2] % 128) * 65536 + b[3] * 256 + b[4]
  IN [ok |-> (ex = 0 /\ fr = 0) \/ (ex > 60 /\ ex < 190),
      v |-> IF ex = 0 THEN DyZero ELSE Dy(b[1] >= 128, BFrom(8388608 + fr), ex - 150)]
FromF64(b) ==
  LET ex == (b[1] % 128) * 16 + (b[2] \div 16)
      hi == 16 + (b[2] % 16)
      m == BAdd(BShl(BFrom(hi), 48),
                BAdd(BShl(BFrom(b[3] * 65536 + b[4] * 256 + b[5]), 24), BFrom(b[6] * 65536 + b[7] * 256 + b[8])))
      zero == \A i \in 1..8 : b[i] = 0 \/ (i = 1 /\ b[i] = 128)
  IN [ok |-> zero \/ (ex > 960 /\ ex < 1090), v |-> IF zero THEN DyZero ELSE Dy(b[1] >= 128, m, ex - 1075)]
FromWord(w) == IF WNeg(w) THEN LET n == WSub(WZero, w) IN Dy(TRUE, BAdd(BMul(BFrom(n.h), BFrom(65536)), BFrom(n.l)), 0)
               ELSE Dy(FALSE, BAdd(BMul(BFrom(w.h), BFrom(65536)), BFrom(w.l)), 0)

(***************************************************************************)
(* The pseudo-random sequence: seeds of x -> 16807 x mod 2^31-1 from 1.    *)
(* SeedOf(i) is the (i+1)-th; the random value is SeedOf(i) / (2^31-1).    *)
(***************************************************************************)
NRANDOM == 10000
LehmerNext(x) == LET t == 16807 * (x % 127773) - 2836 * (x \div 127773) IN IF t > 0 THEN t ELSE t + 2147483647
RECURSIVE SeedsFrom(_, _)
SeedsFrom(x, n) == IF n = 0 THEN <<>> ELSE LET y == LehmerNext(x) IN <<y>> \o SeedsFrom(y, n - 1)
RECURSIVE SeedBlocks(_, _)
SeedBlocks(x, n) == IF n = 0 THEN <<>> ELSE LET b == SeedsFrom(x, 100) IN b \o SeedBlocks(b[100], n - 1)
Seeds == SeedBlocks(1, 100)
CONSTANT SeedOf(_)
RandDy(i) == Dy(FALSE, BFrom(SeedOf(i)), -31)          \* within 2^-31

\* floor(500 * seed / (2^31-1)), and whether the fraction keeps away from the integers
M31 == BDec(<<2,1,4,7,4,8,3,6,4,7>>)
Start500(seed) ==
  LET n == BMulSmall(BFrom(seed), 500)
      q0 == ((seed \div 512) * 500) \div 4194304
      q == IF BLe(BMulSmall(M31, q0 + 1), n) THEN q0 + 1 ELSE IF BLe(BMulSmall(M31, q0), n) THEN q0 ELSE q0 - 1
      fr == BSub(n, BMulSmall(M31, q))                 \* in 0..m-1
      margin == BFrom(1000000)                         \* 0.0005
  IN [i |-> q, sure |-> BLe(margin, fr) /\ BLe(fr, BSub(M31, margin))]

\* index of the random value of pixel k (0-based) of tile t (0-based) for a seed in 1..10000:
\* the tile starts at the offset given by random value number t + seed - 1, runs to the
\* end of the sequence, then starts again at the offset given by the next random value
RECURSIVE DitherIndex(_, _)
DitherIndex(i0, k) ==
  LET s == Start500(SeedOf(i0))
      room == NRANDOM - s.i
  IN IF ~s.sure THEN -1
     ELSE IF k < room THEN s.i + k
     ELSE DitherIndex((i0 + 1) % NRANDOM, k - room)

Half == Dy(FALSE, <<1>>, -1)
NaN32 == <<127, 192, 0, 0>>
Tiny32(b) == (b[1] % 128) * 2 + (b[2] \div 128) <= 60
ZeroWord == W(32768, 1)                                \* -2147483647
\* does the restored pixel b (bytes) fit word w: method 0, 1 or 2, dither index ix
Restored(b, w, scale, zero, method, ix) ==
  IF method = 2 /\ w = ZeroWord THEN b \in {<<0, 0, 0, 0>>, <<128, 0, 0, 0>>}
  ELSE IF method # 0 /\ ix < 0 THEN TRUE
  ELSE LET v == FromWord(w)
           d == IF method = 0 THEN v ELSE DyAdd(DySub(v, RandDy(ix)), Half)
           want == DyAdd(DyMul(d, scale), zero)
           got == FromF32(b)
           mag == DyAdd(DyMul(DyAdd(DyAbs(v), DyInt(2)), DyAbs(scale)), DyAbs(zero))
           tol == [mag EXCEPT !.e = mag.e - 21]
           near(x) == DyLe(DyAbs(DySub(x, want)), tol)
       IN IF got.ok THEN near(got.v) ELSE Tiny32(b) /\ near(DyZero)
=============================================================================
