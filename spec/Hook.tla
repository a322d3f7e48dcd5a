-------------------------------- MODULE Hook -------------------------------
(***************************************************************************)
(* A FITS image opened through the image crate: which HDU is shown, its    *)
(* size, colour type and samples.                                          *)
(*   samples: 8-bit pixels as 8-bit samples, 16-bit ones as 16-bit samples *)
(*   (both after BSCALE and BZERO, rounded, negative values shown as 0);   *)
(*   32- and 64-bit integers as floats relative to the largest integer;    *)
(*   floating-point pixels as they are.  One plane: grey, three: RGB.      *)
(***************************************************************************)
EXTENDS Async

\* the first HDU with an image; the walk of the last HDU seen, and what was found there
RECURSIVE Shown(_, _)
Shown(f, w) ==
  LET r == Next1(f, w) IN
  CASE r.obs.t # "hdu" -> [st |-> IF r.obs.t = "stop" THEN "any" ELSE "err", w |-> r.w]
    [] r.obs.kind \in {"prim", "image"} /\ r.obs.size # <<>> -> [st |-> "image", w |-> r.w]
    [] r.obs.kind = "bintable" /\ r.w.geo.z.ok -> [st |-> "tiles", w |-> r.w]
    [] OTHER -> Shown(f, r.w)

(***************************************************************************)
(* BSCALE and BZERO: decimal numbers s * 10^x                              *)
(***************************************************************************)
Decim(ok, neg, m, x) == [ok |-> ok, neg |-> neg, m |-> m, x |-> x]
DecOf(h, k, def) ==
  LET v == Lookup(h, k)
      neg == FirstIs(v.s, 45)
      d == IF neg THEN Tail(v.s) ELSE v.s
  IN IF ~HasKey(h, k) THEN Decim(TRUE, FALSE, BFrom(def), 0)
     ELSE IF v.t \in {"int", "flt"} /\ AllDigits(d) /\ Len(d) <= 15 /\ v.e > -16 /\ v.e < 16
       THEN Decim(TRUE, neg, BDec(DigitVals(d)), v.e)
     ELSE Decim(FALSE, FALSE, <<>>, 0)
RECURSIVE Ten(_)
Ten(n) == IF n = 0 THEN <<1>> ELSE BMulSmall(Ten(n - 1), 10)
\* value * 10^k as a dyadic integer
DecTimes(d, k) == Dy(d.neg, BMul(d.m, Ten(d.x + k)), 0)
ScaleOf(f, w) ==
  LET h == Assemble(CardsIn(f, w.hd, FindEnd(f, w.hd)))
      s == DecOf(h, S("BSCALE"), 1)
      z == DecOf(h, S("BZERO"), 0)
      k == Max2(0, Max2(-s.x, -z.x))
  IN [ok |-> s.ok /\ z.ok, s |-> IF s.ok /\ z.ok THEN DecTimes(s, k) ELSE DyZero,
      z |-> IF s.ok /\ z.ok THEN DecTimes(z, k) ELSE DyZero, k |-> Ten(k)]

\* an integer pixel (dyadic), scaled: n / k, with the size of its terms
Scaled(v, sc) == LET t == DyMul(v, sc.s) IN [n |-> DyAdd(t, sc.z), mag |-> DyAdd(DyAbs(t), DyAbs(sc.z))]
\* b is n / sc.k rounded to the nearest integer from 0 to most
RoundsTo(b, most, x, sc) ==
  LET o == Dy(FALSE, BFromBytes(b, <<>>), 0)
      k == Dy(FALSE, sc.k, 0)
      up == Dy(FALSE, BFrom(most), 0)
      slack == DyAdd(Dy(FALSE, sc.k, -20), [x.mag EXCEPT !.e = x.mag.e - 40])
      half == DyAdd(Dy(FALSE, sc.k, -1), slack)
  IN \/ DyLe(DyAbs(DySub(DyMul(o, k), x.n)), half)
     \/ o.m = <<>> /\ DyLe(x.n, half)
     \/ o.m = BFrom(most) /\ DyLe(DySub(DyMul(up, k), half), x.n)
\* the float b is n / sc.k / top
RelativeTo(b, top, x, sc) ==
  LET g == FromF32(b)
      want == x.n
      tol == DyAdd([x.mag EXCEPT !.e = x.mag.e - 40], [DyAbs(x.n) EXCEPT !.e = x.n.e - 22])
      near(y) == DyLe(DyAbs(DySub(DyMul(DyMul(y, Dy(FALSE, sc.k, 0)), Dy(FALSE, top, 0)), want)), tol)
  IN IF g.ok THEN near(g.v) ELSE Tiny32(b) /\ DyLe(DyAbs(want), DyMul(Dy(FALSE, top, -50), Dy(FALSE, sc.k, 0)))
Top32 == M31
Top64 == I64MAX

\* two's complement big-endian bytes
FlipB(b) == Force([ i \in 1..Len(b) |-> 255 - b[i] ])
SignedDy(b) == IF b[1] < 128 THEN Dy(FALSE, BFromBytes(b, <<>>), 0)
               ELSE Dy(TRUE, BAdd(BFromBytes(FlipB(b), <<>>), <<1>>), 0)
IsNaN32(b) == (b[1] % 128) = 127 /\ b[2] >= 128 /\ ((b[2] % 128) + b[3] + b[4] > 0)
IsInf32(b) == (b[1] % 128) = 127 /\ b[2] = 128 /\ b[3] = 0 /\ b[4] = 0
IsNaN64(b) == (b[1] % 128) = 127 /\ b[2] >= 240 /\ ((b[2] % 16) + b[3] + b[4] + b[5] + b[6] + b[7] + b[8] > 0)
\* is sample b right for the big-endian pixel p of this bitpix?
IntSample(b, v, bitpix, sc) ==
  CASE bitpix = 8 -> RoundsTo(b, 255, Scaled(v, sc), sc)
    [] bitpix = 16 -> RoundsTo(b, 65535, Scaled(v, sc), sc)
    [] bitpix = 32 -> RelativeTo(b, Top32, Scaled(v, sc), sc)
    [] bitpix = 64 -> RelativeTo(b, Top64, Scaled(v, sc), sc)
Sample(b, p, bitpix, sc) ==
  CASE bitpix = 8 -> IntSample(b, Dy(FALSE, BFrom(p[1]), 0), 8, sc)
    [] bitpix \in {16, 32, 64} -> IntSample(b, SignedDy(p), bitpix, sc)
    [] bitpix = -32 -> b = (IF IsNaN32(p) THEN NaN32 ELSE p)
    [] bitpix = -64 ->
         LET x == FromF64(p).v
             g == FromF32(b).v
             ex == (p[1] % 128) * 16 + (p[2] \div 16)
             fx == (b[1] % 128) * 2 + (b[2] \div 128)
         IN IF IsNaN64(p) THEN b = NaN32
            ELSE /\ (b[1] >= 128) = (p[1] >= 128)
                 /\ CASE ex > 1150 -> IsInf32(b)
                      [] ex < 898 -> fx < 3
                      [] OTHER -> \/ fx \in 1..254 /\ DyLe(DyAbs(DySub(g, x)), [DyAbs(x) EXCEPT !.e = x.e - 23])
                                  \/ IsInf32(b) /\ ex = 1150

(***************************************************************************)
(* Shape                                                                   *)
(***************************************************************************)
ColourOf(bitpix, rgb) ==
  CASE bitpix = 8 -> IF rgb THEN "Rgb8" ELSE "L8"
    [] bitpix = 16 -> IF rgb THEN "Rgb16" ELSE "L16"
    [] OTHER -> "Rgb32F"
\* sample number i (from 1) of the image: the pixel (from 0) it shows
PixelOfSample(i, plane, rgb, colour) ==
  IF rgb THEN ((i - 1) % 3) * plane + (i - 1) \div 3
  ELSE IF colour = "Rgb32F" THEN (i - 1) \div 3
  ELSE i - 1
MaxShown == 100000

\* tile and place in the tile of pixel q (from 0) of a w * h * d image
TilePlace(q, dims, ts) ==
  LET x == q % dims[1]  y == (q \div dims[1]) % dims[2]  z == q \div (dims[1] * dims[2])
      kx == (dims[1] + ts[1] - 1) \div ts[1]
      ky == (dims[2] + ts[2] - 1) \div ts[2]
      tx == x \div ts[1]  ty == y \div ts[2]  tz == z \div ts[3]
      w == Min2(ts[1], dims[1] - tx * ts[1])
      h == Min2(ts[2], dims[2] - ty * ts[2])
  IN [t |-> (tz * ky + ty) * kx + tx, i |-> ((z % ts[3]) * h + (y % ts[2])) * w + (x % ts[1])]
Pad3(s) == s \o (IF Len(s) = 2 THEN <<1>> ELSE <<>>)
WordDy(z, wd) ==
  CASE z.bitpix = 8 -> Dy(FALSE, BFrom(wd.l % 256), 0)
    [] z.bitpix = 16 -> SignedDy(<<wd.l \div 256, wd.l % 256>>)
    [] z.bitpix = 32 -> FromWord(wd)

TilesShown(f, w, obs, dims, rgb, colour, sc) ==
  LET z == w.geo.z
      plane == dims[1] * dims[2]
      n == plane * dims[3]
      ts == Pad3([ i \in 1..Len(z.tile) |-> Max2(1, IF BFits(z.tile[i]) THEN BToInt(z.tile[i]) ELSE MaxShown) ])
      nt == 1 + TilePlace(n - 1, dims, ts).t
      tl == Force([ t \in 1..nt |-> TileOf(f, w, t - 1, 0, MaxTile) ])
      ps == Force([ t \in 1..nt |-> IF tl[t].st = "ok" THEN Params(f, w, t - 1) ELSE [fl |-> FALSE] ])
  IN IF \E t \in 1..nt : tl[t].st \in {"any", "maybe"} THEN TRUE
     ELSE IF \E t \in 1..nt : tl[t].st # "ok" THEN obs.t = "err"
     ELSE /\ obs.t = "image"
          /\ \A i \in 1..Len(obs.b) :
               LET q == TilePlace(PixelOfSample(i, plane, rgb, colour), dims, ts)
                   wd == WordAt(z, tl[q.t + 1], q.i, 0)
               IN IF z.bitpix > 0 THEN IntSample(obs.b[i], WordDy(z, wd), z.bitpix, sc)
                  ELSE PixelFits(z, q.t, q.i, wd, ps[q.t + 1], obs.b[i])

ImageShown(f, w, obs, dims, rgb, colour, sc) ==
  LET plane == dims[1] * dims[2]
      n == plane * dims[3]
      px == PixelsFrom(f, w, <<>>, n)
  IN IF ~BLe(w.geo.size, AvailBytes(f, w.du)) THEN obs.t = "err"
     ELSE /\ obs.t = "image"
          /\ \A i \in 1..Len(obs.b) :
               Sample(obs.b[i], px[PixelOfSample(i, plane, rgb, colour) + 1], w.geo.bitpix, sc)

HookMatches(f, obs) ==
  LET s == Shown(f, WInit)
      w == s.w
      naxis == IF s.st = "tiles" THEN w.geo.z.naxis ELSE w.geo.naxis
      bitpix == IF s.st = "tiles" THEN w.geo.z.bitpix ELSE w.geo.bitpix
      rgb == Len(naxis) = 3 /\ naxis[3] = <<3>>
      colour == ColourOf(bitpix, rgb)
      sc == ScaleOf(f, w)
  IN CASE s.st = "err" -> obs.t = "err"
       [] s.st = "any" -> obs.t \in {"err", "image"}
       [] Len(naxis) < 2 \/ Len(naxis) > 3 \/ (Len(naxis) = 3 /\ naxis[3] \notin {<<1>>, <<3>>}) -> obs.t = "err"
       [] \/ \E i \in 1..Len(naxis) : ~BFits(naxis[i]) \/ naxis[i] = <<>>
          \/ ~BLe(BMul(naxis[1], naxis[2]), BFrom(MaxShown)) -> obs.t \in {"err", "image"}
       [] s.st = "tiles" /\ (w.geo.rowlen < 0 \/ \E i \in 1..Len(naxis) : w.geo.z.tile[i] = <<>>) -> obs.t \in {"err", "image"}
       [] ~sc.ok -> obs.t \in {"err", "image"}
       [] OTHER ->
            LET dims == Pad3(Force([ i \in 1..Len(naxis) |-> BToInt(naxis[i]) ]))
                plane == dims[1] * dims[2]
                chan == IF rgb \/ colour = "Rgb32F" THEN 3 ELSE 1
            IN /\ obs.t = "image" =>
                    /\ obs.w = dims[1] /\ obs.h = dims[2] /\ obs.color = colour /\ obs.flip
                    /\ Len(obs.b) = plane * chan
               /\ IF s.st = "tiles" THEN TilesShown(f, w, obs, dims, rgb, colour, sc)
                  ELSE ImageShown(f, w, obs, dims, rgb, colour, sc)
=============================================================================
