----------------------------- MODULE MC_Dither -----------------------------
(***************************************************************************)
(* Restoring floating-point pixels: every pair of words from Words in the  *)
(* first tiles of an image, under every method, seed, scale, zero and      *)
(* blank.  The random sequence is the one of the FITS standard.            *)
(***************************************************************************)
EXTENDS Quant, Json
CONSTANTS Zdithers, Tiles
VARIABLES pair, method, zd, tile, sc, blank
RealSeed(i) == TLCGet(4)[i + 1]
\* the value the standard gives for checking implementations
ASSUME Seeds[10000] = 1043618065
ASSUME TLCSet(4, Seeds)

Words == << 0, 1, -1, 100, -2147483647, 5 >>                  \* index 5: the word for zero under method 2
Init == /\ pair \in (1..6) \X (1..6) /\ method \in 0..2 /\ zd \in Zdithers /\ tile \in Tiles
        /\ sc \in 1..3 /\ blank \in {0, 5}                    \* 0: none
Next == FALSE /\ UNCHANGED <<pair, method, zd, tile, sc, blank>>
Spec == TLCSet(4, Seeds) /\ Init /\ [][Next]_<<pair, method, zd, tile, sc, blank>>

\* neighbouring pixels use neighbouring random values, and every index is one of the sequence
First == ((zd - 1) + tile) % NRANDOM
Index(k) == DitherIndex(First, k)
Indexes == LET s == Start500(RealSeed(First)) IN
  /\ s.i \in 0..499
  /\ s.sure => Index(0) = s.i /\ Index(1) = s.i + 1
  /\ s.sure => Index(NRANDOM - 1 - s.i) = NRANDOM - 1
  /\ LET n == Index(NRANDOM - s.i) IN s.sure => n = -1 \/ n = Start500(RealSeed((First + 1) % NRANDOM)).i
\* dithering moves a pixel by at most half a step
Bounded == \A k \in 0..3 : Index(k) >= 0 =>
  DyLe(DyAbs(DySub(RandDy(Index(k)), Half)), DyAdd(Half, Dy(FALSE, <<1>>, -20)))
Emit == PrintT("CASE " \o ToJson([w |-> <<Words[pair[1]], Words[pair[2]]>>, method |-> method, zd |-> zd, tile |-> tile,
                                  sc |-> sc, blank |-> blank]))
=============================================================================
