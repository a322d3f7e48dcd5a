-------------------------------- MODULE Tile -------------------------------
(***************************************************************************)
(* The pixels of a tile-compressed image, in the order of its tiles.       *)
(*                                                                         *)
(* Row t of the table holds tile t: the tiles in the order of their first  *)
(* pixels, the ones at the upper border of an axis cut to what is left.    *)
(* A tile is stored in the heap as 32-bit words, RICE coded, or compressed *)
(* with gzip as they are (GZIP_1) or byte-shuffled (GZIP_2).  Inflating    *)
(* gzip is left to the file description: f.inf lists the gzip members of   *)
(* the file, [at, n, raw] being position, length and decompressed bytes.   *)
(***************************************************************************)
EXTENDS Table, Quant

\* pixels along each axis of tile t; <<>> if there is no such tile
RECURSIVE TileShape(_, _, _)
TileShape(tile, naxis, t) ==
  IF naxis = <<>> THEN (IF t = 0 THEN <<>> ELSE <<-1>>)
  ELSE LET a == Head(naxis)
           s == Head(tile)
           k == (a + s - 1) \div s
           pos == (t % k) * s
       IN <<Min2(s, a - pos)>> \o TileShape(Tail(tile), Tail(naxis), t \div k)
RECURSIVE BigProduct(_)
BigProduct(xs) == IF xs = <<>> THEN <<1>> ELSE BMul(BFrom(Head(xs)), BigProduct(Tail(xs)))

MaxTile == 100000
\* number of pixels of tile t: 0 no such tile, -1 beyond what is followed here
TilePixels(z, t) ==
  IF z.naxis = <<>> \/ \E i \in 1..Len(z.naxis) : z.naxis[i] = <<>> \/ z.tile[i] = <<>> THEN 0
  ELSE IF \E i \in 1..Len(z.naxis) : ~BFits(z.naxis[i]) \/ ~BFits(z.tile[i]) THEN -1
  ELSE LET sh == TileShape([ i \in 1..Len(z.tile) |-> BToInt(z.tile[i]) ],
                           [ i \in 1..Len(z.naxis) |-> BToInt(z.naxis[i]) ], t)
       IN IF \E i \in 1..Len(sh) : sh[i] < 0 THEN 0
          ELSE LET n == BigProduct(sh) IN IF BLe(n, BFrom(MaxTile)) THEN BToInt(n) ELSE -1

Tl(st, n, src) == [st |-> st, n |-> n, src |-> src]
MemberAt(f, at) == { i \in 1..Len(f.inf) : f.inf[i].at = at }

\* tile t: st is "ok" (n words, those from lo to hi-1 are in src), "end" (it cannot be had: the pixels end
\* here), "maybe" (either is right), "any" (nothing is promised)
TileOf(f, w, t, lo, hi) ==
  LET z == w.geo.z
      base == BMul(BFrom(t), BFrom(w.geo.rowlen))
      n == TilePixels(z, t)
      col == w.geo.cols[z.data]
      half == IF col.ty = 80 THEN 4 ELSE 8
      d == DuBytes(f, w, BAdd(base, ColStart(w.geo.cols, z.data)), 2 * half)
      len == BMulSmall(BFromBytes(SubSeq(d, 1, half), <<>>), ElemBytes(col.elem))
      at == BAdd(w.geo.theap, BFromBytes(SubSeq(d, half + 1, 2 * half), <<>>))
      have == PresentBytes(f, w)
  IN IF t >= RowCount(w) \/ ~BLe(BAdd(base, BFrom(w.geo.rowlen)), have) \/ n = 0 THEN Tl("end", 0, <<>>)
     ELSE IF n < 0 \/ ~BLe(BAdd(at, len), w.geo.size) THEN Tl("any", 0, <<>>)
     ELSE IF BLe(have, at) \/ len = <<>> THEN Tl("end", 0, <<>>)
     ELSE IF z.algo = "rice" THEN
       LET s == DuBytes(f, w, at, GapInt(at, BMin(have, BAdd(at, len)), 400000))
           r == DecodeWindow(s, n, z.nb, lo, hi)
       IN CASE r.st = "ok" -> Tl("ok", n, r.px)
            [] r.st = "short" -> Tl("end", 0, <<>>)
            [] OTHER -> Tl("any", 0, <<>>)
     ELSE
       LET m == MemberAt(f, BAdd(BMulSmall(BFrom(w.du), 80), at))
           e == f.inf[CHOOSE i \in m : TRUE]
           stop == BAdd(at, BFrom(e.n))
       IN IF m = {} THEN Tl("any", 0, <<>>)
          ELSE IF Len(e.raw) < 4 * n THEN Tl("end", 0, <<>>)
          ELSE IF BLe(stop, BAdd(at, len)) /\ BLe(stop, have) THEN Tl("ok", n, e.raw)
          ELSE Tl("maybe", n, e.raw)

\* word i (0-based) of a tile read from word lo on
WordAt(z, tl, i, lo) ==
  CASE z.algo = "rice" -> tl.src[i + 1 - lo]
    [] z.algo = "gz1" -> WFromBytes(tl.src, 4 * i + 1)
    [] z.algo = "gz2" -> LET q == tl.n IN
         W(tl.src[i + 1] * 256 + tl.src[q + i + 1], tl.src[2 * q + i + 1] * 256 + tl.src[3 * q + i + 1])

(***************************************************************************)
(* Floating-point pixels                                                   *)
(***************************************************************************)
ColBytes(f, w, j, t, n) ==
  DuBytes(f, w, BAdd(BMul(BFrom(t), BFrom(w.geo.rowlen)), ColStart(w.geo.cols, j)), n)
RealOf(f, w, j, t) == IF w.geo.cols[j].ty = 69 THEN FromF32(ColBytes(f, w, j, t, 4))
                      ELSE FromF64(ColBytes(f, w, j, t, 8))
\* the word that marks a blank pixel, or <<>>
SignedWord(v, neg) == IF neg THEN WSub(WZero, v) ELSE v
DecWord(s) ==
  LET neg == FirstIs(s, 45)
      m == BDivMod(BDec(DigitVals(IF neg THEN Tail(s) ELSE s)), 65536)
  IN SignedWord(W(BToInt(m.q) % 65536, m.r), neg)
BlankOf(f, w, t) ==
  LET z == w.geo.z
      ty == w.geo.cols[z.blank].ty
      b == ColBytes(f, w, z.blank, t, ElemBytes(ty))
      ext(hi) == IF hi >= 128 THEN 65535 ELSE 0
  IN IF z.blank = 0 THEN (IF z.kwblank = <<>> THEN <<>> ELSE <<DecWord(z.kwblank)>>)
     ELSE CASE ty = 66 -> <<W(0, b[1])>>
            [] ty = 73 -> <<W(ext(b[1]), b[1] * 256 + b[2])>>
            [] ty = 74 -> <<WFromBytes(b, 1)>>
            [] ty = 75 -> IF \A i \in 1..4 : b[i] = (IF b[5] >= 128 THEN 255 ELSE 0) THEN <<WFromBytes(b, 5)>> ELSE <<>>
Params(f, w, t) ==
  LET z == w.geo.z IN
  IF z.bitpix > 0 THEN [fl |-> FALSE]
  ELSE LET s == RealOf(f, w, z.scale, t)
           o == RealOf(f, w, z.zero, t)
       IN [fl |-> TRUE, ok |-> s.ok /\ o.ok, scale |-> s.v, zero |-> o.v, blank |-> BlankOf(f, w, t)]

PixelFits(z, t, i, word, p, b) ==
  IF ~p.fl THEN b = (CASE z.bitpix = 8 -> <<word.l % 256>>
                       [] z.bitpix = 16 -> <<word.l \div 256, word.l % 256>>
                       [] z.bitpix = 32 -> WBytes(word))
  ELSE IF <<word>> = p.blank THEN b = NaN32
  ELSE IF ~p.ok \/ (z.method # 0 /\ z.seed = 0) THEN TRUE
  ELSE Restored(b, word, p.scale, p.zero, z.method,
                IF z.method = 0 THEN 0 ELSE DitherIndex((t + z.seed - 1) % NRANDOM, i))

(***************************************************************************)
(* One call: skip pixels, then take up to want more; b is what came, ended *)
(* says that the end was seen.                                             *)
(***************************************************************************)
RECURSIVE PixMatch(_, _, _, _, _, _, _, _)
PixMatch(f, w, t, skip, want, b, k, ended) ==
  IF want = 0 /\ skip = 0 THEN Len(b) = k - 1 /\ ~ended
  ELSE LET tl == TileOf(f, w, t, skip, skip + want)
           over == Len(b) = k - 1 /\ ended
           n == tl.n
           m == Min2(n - skip, want)
           p == Params(f, w, t)
           goes == IF skip >= n THEN PixMatch(f, w, t + 1, skip - n, want, b, k, ended)
                   ELSE /\ k + m - 1 <= Len(b)
                        /\ \A i \in 0..(m - 1) :
                             PixelFits(w.geo.z, t, skip + i, WordAt(w.geo.z, tl, skip + i, skip), p, b[k + i])
                        /\ PixMatch(f, w, t + 1, 0, want - m, b, k + m, ended)
       IN CASE tl.st = "ok" -> goes
            [] tl.st = "end" -> over
            [] tl.st = "any" -> TRUE
            [] tl.st = "maybe" -> over \/ goes

\* the tiles that are passed over whole (an iteration instead of a recursion: there may be many)
Passed(f, w, skip) ==
  LET step(a, t) ==
        IF ~a.on THEN a
        ELSE LET tl == TileOf(f, w, t - 1, 0, 0) IN
             IF tl.st = "ok" /\ tl.n <= a.skip THEN [a EXCEPT !.t = t, !.skip = a.skip - tl.n] ELSE [a EXCEPT !.on = FALSE]
  IN Fold(step, [on |-> TRUE, t |-> 0, skip |-> skip], UpTo(Min2(RowCount(w), 1000)))
PixCall(f, w, skip, want, b, ended) ==
  LET a == Passed(f, w, skip) IN PixMatch(f, w, a.t, a.skip, want, b, 1, ended)

BinSession(f, w, sub, obs) ==
  IF sub = <<>> \/ sub[1].k # "pix" THEN TableSession(f, w, sub, obs)
  ELSE LET o == obs[1] IN
       /\ Len(obs) = 1 /\ o.t = "pix"
       /\ IF ~w.geo.z.ok THEN o.ty = "table" /\ o.b = <<>>
          ELSE o.ty = PixType(w.geo.z.bitpix) /\ (w.geo.rowlen < 0 \/ PixCall(f, w, sub[1].from, sub[1].n, o.b, o.ended))
=============================================================================
