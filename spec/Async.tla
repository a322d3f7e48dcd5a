------------------------------- MODULE Async -------------------------------
(***************************************************************************)
(* The asynchronous reader: however the bytes arrive, what it reports is   *)
(* what the synchronous walk reports.  The schedule of arrivals is not a   *)
(* part of the state: nothing a caller sees may depend on it.              *)
(***************************************************************************)
EXTENDS Columns

\* it does not say where the data unit is
AHduMatches(exp, obs) ==
  IF exp.t = "hdu" THEN obs = [exp EXCEPT !.off = <<>>] ELSE HduMatches(exp, obs)

\* image pixels, or the bytes of a table, as one stream of items
AItemBytes(w) == IF w.geo.kind = "image" THEN ItemBytes(w.geo.bitpix) ELSE 1
AItems(w, bytes) == BDivMod(bytes, AItemBytes(w)).q
\* n values after the first skip ones
AValues(f, w, skip, n) ==
  LET from == BFrom(skip)
      have == AItems(w, PresentBytes(f, w))
      all == BLe(from, have)                           \* as many values as are to be passed over
      m == IF all THEN GapInt(from, have, n) ELSE 0
      sz == AItemBytes(w)
      by == IF m = 0 THEN <<>> ELSE DuBytes(f, w, BMulSmall(from, sz), m * sz)
  IN [b |-> Force([ i \in 1..m |-> SubSeq(by, (i - 1) * sz + 1, i * sz) ]),
      end |-> IF all /\ m = n THEN {"more"}
              ELSE IF BLe(w.geo.size, AvailBytes(f, w.du)) THEN {"none"}
              ELSE {"none", "err"}]                  \* the file ends early
AValsMatch(f, w, skip, n, obs) ==
  LET e == AValues(f, w, skip, n) IN obs.t = "vals" /\ obs.ty = (IF w.geo.kind = "image" THEN PixType(w.geo.bitpix) ELSE "u8") /\ obs.b = e.b /\ obs.end \in e.end
=============================================================================
