----------------------------- MODULE MC_Tiling -----------------------------
(***************************************************************************)
(* Every image shape up to MaxAxis along each of up to three axes and      *)
(* every tile shape: the tiles partition the image, and the two ways the   *)
(* specification uses to say where a pixel is agree.                       *)
(***************************************************************************)
EXTENDS Hook, FiniteSets, Json
CONSTANTS MaxAxis, Depths
VARIABLES shape, tshape
NoRecord(i) == <<>>
NoSeed(i) == 1

Init == /\ shape \in { <<x, y, z>> : x \in 1..MaxAxis, y \in 1..MaxAxis, z \in Depths }
        /\ tshape \in { <<x, y, z>> : x \in 1..(MaxAxis + 1), y \in 1..(MaxAxis + 1), z \in {1, 2, 3} }
Next == FALSE /\ UNCHANGED <<shape, tshape>>
Spec == Init /\ [][Next]_<<shape, tshape>>

N == shape[1] * shape[2] * shape[3]
Place(q) == TilePlace(q, shape, tshape)
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE Head(s) * Product(Tail(s))
Tiles == 1 + Place(N - 1).t
SizeOf(t) == Product(TileShape(tshape, shape, t))
InTile(t) == { q \in 0..(N - 1) : Place(q).t = t }
\* each pixel has a place of its own, the places of a tile are 0..size-1 in raster order
Partition == \A t \in 0..(Tiles - 1) :
  /\ { Place(q).i : q \in InTile(t) } = 0..(SizeOf(t) - 1)
  /\ Cardinality(InTile(t)) = SizeOf(t)
  /\ \A a, b \in InTile(t) : a < b => Place(a).i < Place(b).i
\* tiles are numbered in the order of their first pixels, and there are no others
Numbered == /\ \A t \in 1..(Tiles - 1) : (CHOOSE q \in InTile(t - 1) : Place(q).i = 0) < (CHOOSE q \in InTile(t) : Place(q).i = 0)
            /\ \E i \in 1..4 : (TileShape(tshape, shape, Tiles) \o <<-1>>)[i] = -1
Emit == PrintT("CASE " \o ToJson([shape |-> shape, tshape |-> tshape]))
=============================================================================
