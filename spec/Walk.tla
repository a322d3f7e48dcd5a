------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* Walking a file from HDU to HDU, and reading the image data unit of the  *)
(* current one.  A file is [runs, n, tail]:                                *)
(*   runs  <<[at, n, d]>>: records at..at+n-1 (0-based) are RecordOf(d)        *)
(*   n     complete 80-byte records;  tail  the bytes after them (0..79)   *)
(* where RecordOf gives the distinct 80-byte records of the files at hand. *)
(* Only headers are 80-byte aligned, but 2880 = 36 * 80, so every data     *)
(* unit starts on a record boundary too.                                   *)
(*                                                                         *)
(* State of a walk:                                                        *)
(*   phase  "start" "in" "end" "error"                                     *)
(*   du     record index where the current data unit starts                *)
(*   geo    geometry of the current HDU;  prim  is it the primary          *)
(*   fresh  no data has been requested yet in this data unit               *)
(***************************************************************************)
EXTENDS Geometry

CONSTANTS RecordOf(_),     \* the distinct records, by number
          CardOf(_)        \* the card each of them encodes: ParseCard(RecordOf(i))

BLOCK == 36                       \* records per 2880-byte block

\* index of the run holding record u (binary search)
RECURSIVE RunFind(_, _, _, _)
RunFind(runs, u, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN
       IF runs[m].at <= u THEN RunFind(runs, u, m, hi) ELSE RunFind(runs, u, lo, m - 1)
UnitId(f, u) == f.runs[RunFind(f.runs, u, 1, Len(f.runs))].d
Unit(f, u) == RecordOf(UnitId(f, u))
CardAt(f, u) == CardOf(UnitId(f, u))
WInit == [phase |-> "start", hd |-> 0, du |-> 0, geo |-> Rejected, prim |-> FALSE, fresh |-> TRUE]

\* the record that ends the header starting at record u, or f.n if there is none
RECURSIVE FindEndFrom(_, _, _)
FindEndFrom(f, u, step) ==
  LET v == Min2(u + step, f.n) - 1 IN
  IF u >= f.n THEN f.n
  ELSE IF \E i \in u..v : IsEndRecord(Unit(f, i)) THEN CHOOSE i \in u..v : IsEndRecord(Unit(f, i))
  ELSE FindEndFrom(f, v + 1, 2 * step)
FindEnd(f, u) == FindEndFrom(f, u, 36)
\* the cards in records u..v
CardsIn(f, u, v) == Force([ i \in 1..(v - u + 1) |-> CardAt(f, u + i - 1) ])

RoundUpBlock(u) == ((u + BLOCK - 1) \div BLOCK) * BLOCK

\* number of 80-byte records a data unit occupies, padding included (Big)
PaddedUnits(size) ==
  LET d == BDivMod(size, 2880)
      blocks == IF d.r = 0 THEN d.q ELSE BAdd(d.q, <<1>>)
  IN BMulSmall(blocks, BLOCK)

Fail(w) == [w |-> [w EXCEPT !.phase = "error"], obs |-> [t |-> "err"]]
Stop(w) == [w |-> [w EXCEPT !.phase = "end"], obs |-> [t |-> "none"]]

KindName(prim, geo) == IF prim THEN "prim" ELSE geo.kind
HduObs(w) ==
  [t |-> "hdu", kind |-> KindName(w.prim, w.geo), off |-> BMulSmall(BFrom(w.du), 80),
   size |-> w.geo.size, bitpix |-> IF w.geo.kind = "image" THEN w.geo.bitpix ELSE 0,
   naxis |-> IF w.geo.kind = "bintable" THEN <<>> ELSE w.geo.naxis,
   ncols |-> w.geo.ncols, rows |-> w.geo.rows]

\* reading the header that starts at record u
ReadHdu(f, w, u, prim) ==
  IF u >= f.n THEN (IF prim THEN Fail(w) ELSE Stop(w))
  ELSE LET e == FindEnd(f, u)
           first == CardAt(f, u)
       IN IF e = f.n \/ ~(IF prim THEN IsPrimary(first) ELSE first.k = "Xtension") THEN Fail(w)
          ELSE LET h == Assemble(CardsIn(f, u, e))
                   geo == IF prim THEN ImageGeometry(h) ELSE ExtGeometry(first, h)
                   du == u + RoundUpBlock(e + 1 - u)
               IN IF ~geo.ok \/ du > f.n THEN Fail(w)      \* header padding must be there
                  ELSE LET w2 == [phase |-> "in", hd |-> u, du |-> du, geo |-> geo, prim |-> prim, fresh |-> TRUE]
                       IN [w |-> w2, obs |-> HduObs(w2)]

\* "stop" stands for: the end or an error, both are right (the data unit ends
\* beyond anything a file can hold)
Next1(f, w) ==
  CASE w.phase = "start" -> ReadHdu(f, w, 0, TRUE)
    [] w.phase = "error" -> [w |-> w, obs |-> [t |-> "none"]]
    [] w.phase = "end"   -> [w |-> w, obs |-> [t |-> "none"]]
    [] w.phase = "in"    ->
         LET p == PaddedUnits(w.geo.size) IN
         IF ~BFits(p) THEN [w |-> [w EXCEPT !.phase = "end"], obs |-> [t |-> "stop"]]
         ELSE ReadHdu(f, w, w.du + BToInt(p), FALSE)
HduMatches(exp, obs) == IF exp.t = "stop" THEN obs.t \in {"none", "err"} ELSE exp = obs

(***************************************************************************)
(* Bytes and pixels of a data unit                                         *)
(***************************************************************************)
\* bytes of the data unit that are in the file (Big)
BMin(x, y) == IF BLe(x, y) THEN x ELSE y
BSubInt(a, b) == IF a <= b THEN <<>> ELSE BFrom(a - b)
AvailBytes(f, u0) == IF u0 > f.n THEN <<>>
                     ELSE BAdd(BMulSmall(BSubInt(f.n, u0), 80), BFrom(Len(f.tail)))
PresentBytes(f, w) == BMin(w.geo.size, AvailBytes(f, w.du))

\* the bytes of records u..v (the incomplete last record of the file included)
RECURSIVE Records(_, _, _)
Records(f, u, v) ==
  IF u > v THEN <<>>
  ELSE IF v - u < 8 THEN (IF u < f.n THEN Unit(f, u) ELSE f.tail) \o Records(f, u + 1, v)
  ELSE LET m == (u + v) \div 2 IN Records(f, u, m) \o Records(f, m + 1, v)
\* n bytes starting r bytes after record u0
BytesAt(f, u0, r, n) ==
  IF n = 0 THEN <<>> ELSE SubSeq(Records(f, u0, u0 + ((r + n - 1) \div 80)), r + 1, r + n)
\* the n bytes at byte offset off (Big) of the data unit
DuBytes(f, w, off, n) ==
  LET d == BDivMod(off, 80) IN BytesAt(f, w.du + BToInt(d.q), d.r, n)

\* the type of the pixels
PixType(bitpix) == CASE bitpix = 8 -> "u8" [] bitpix = 16 -> "i16" [] bitpix = 32 -> "i32" [] bitpix = 64 -> "i64"
                     [] bitpix = -32 -> "f32" [] bitpix = -64 -> "f64"
ItemsOf(geo, bytes) == BDivMod(bytes, ItemBytes(geo.bitpix)).q
NumItems(w) == ItemsOf(w.geo, w.geo.size)
Present(f, w) == ItemsOf(w.geo, PresentBytes(f, w))

\* n consecutive pixels from pixel k (Big) on, all present
PixelsFrom(f, w, k, n) ==
  LET sz == ItemBytes(w.geo.bitpix)
      d == BDivMod(BMulSmall(k, sz), 80)
      by == BytesAt(f, w.du + BToInt(d.q), d.r, n * sz)
  IN Force([ i \in 1..n |-> SubSeq(by, (i - 1) * sz + 1, i * sz) ])

\* min(n, hi - lo) for Big lo <= hi and a small n
GapInt(lo, hi, n) ==
  IF BLe(BAdd(lo, BFrom(n)), hi) THEN n
  ELSE IF BLe(hi, lo) THEN 0
  ELSE CHOOSE m \in 0..n : BAdd(lo, BFrom(m)) = hi

(***************************************************************************)
(* An image session: s is [cur, dead]; cur is the next pixel (Big), dead   *)
(* once a read ran into the end of the file (nothing is promised then).    *)
(* Each step gives the new session and the expected observation.           *)
(***************************************************************************)
ImgInit == [cur |-> <<>>, dead |-> FALSE]
ImgIter(f, w, s, n) ==
  LET m == GapInt(s.cur, Present(f, w), n)
      cur == BAdd(s.cur, BFrom(m))
  IN [s |-> [cur |-> cur, dead |-> m < n /\ cur # NumItems(w)],
      o |-> [t |-> "items", b |-> PixelsFrom(f, w, s.cur, m), ended |-> m < n]]
\* n (Big) pixels passed over
ImgSkip(f, w, s, n) ==
  LET have == Present(f, w)
      all == BLe(BAdd(s.cur, n), have)
      cur == IF all THEN BAdd(s.cur, n) ELSE have
  IN [s |-> [cur |-> cur, dead |-> ~all /\ cur # NumItems(w)],
      o |-> [t |-> "skipped", b |-> <<>>, ended |-> ~all]]
ImgRead(f, w, s, k) ==
  IF BLe(NumItems(w), k) THEN [s |-> s, o |-> [t |-> "err", b |-> <<>>, ended |-> FALSE]]
  ELSE IF BLe(Present(f, w), k)
    THEN [s |-> [s EXCEPT !.dead = TRUE], o |-> [t |-> "err", b |-> <<>>, ended |-> FALSE]]
  ELSE [s |-> [cur |-> BAdd(k, <<1>>), dead |-> FALSE],
        o |-> [t |-> "val", b |-> PixelsFrom(f, w, k, 1), ended |-> FALSE]]
RECURSIVE ImgSession(_, _, _, _, _, _)
\* do the observations obs of the calls sub conform, from call i on?
ImgSession(f, w, sub, obs, s, i) ==
  IF i > Len(sub) THEN TRUE
  ELSE IF s.dead THEN TRUE
  ELSE LET r == CASE sub[i].k = "it" -> ImgIter(f, w, s, sub[i].n)
                  [] sub[i].k = "skip" -> ImgSkip(f, w, s, sub[i].n)
                  [] sub[i].k = "rv" -> ImgRead(f, w, s, sub[i].n) IN
       r.o = obs[i] /\ ImgSession(f, w, sub, obs, r.s, i + 1)

\* raw view of a data unit: what of it is in the file
RawUnit(f, w) == DuBytes(f, w, <<>>, BToInt(PresentBytes(f, w)))
FirstBytes(f, w, n, limit) == DuBytes(f, w, <<>>, GapInt(<<>>, limit, n))
=============================================================================
