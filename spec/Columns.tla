------------------------------ MODULE Columns ------------------------------
(***************************************************************************)
(* What a table says about its columns.                                    *)
(***************************************************************************)
EXTENDS Tile

KwTBCOL == S("TBCOL")
\* a decimal number as the widths of an ASCII format are written: an optional +, digits
Width(s) ==
  LET d == IF FirstIs(s, 43) THEN Tail(s) ELSE s
      v == BDec(DigitVals(d))
  IN [ok |-> d # <<>> /\ (\A i \in 1..Len(d) : IsDigit(d[i])) /\ BLe(v, U64MAX), n |-> v]
NoForm == [ok |-> FALSE, y |-> "", w |-> <<>>, d |-> <<>>]
AsciiForm(s) ==
  LET t == TrimEnd(s)
      rest == Slice(t, 2, Len(t))
      dot == IndexOf(rest, 46)
      w == Width(rest)
      w1 == Width(Slice(rest, 1, dot - 1))
      d1 == Width(Slice(rest, dot + 1, Len(rest)))
  IN IF t = <<>> THEN NoForm
     ELSE CASE t[1] = 65 /\ w.ok -> [ok |-> TRUE, y |-> "A", w |-> w.n, d |-> <<>>]
            [] t[1] = 73 /\ w.ok -> [ok |-> TRUE, y |-> "I", w |-> w.n, d |-> <<>>]
            [] t[1] \in {68, 69, 70} /\ dot # 0 /\ w1.ok /\ d1.ok ->
                 [ok |-> TRUE, y |-> CASE t[1] = 68 -> "D" [] t[1] = 69 -> "E" [] t[1] = 70 -> "F",
                  w |-> w1.n, d |-> d1.n]
            [] OTHER -> NoForm
RECURSIVE AsciiFields(_, _, _)
AsciiFields(h, i, n) ==
  IF i > n THEN <<>>
  ELSE LET b == GetU64(h, Indexed(KwTBCOL, i))
           t == GetText(h, Indexed(KwTFORM, i))
           x == AsciiForm(t.s)
       IN (IF b.ok /\ t.ok /\ x.ok THEN <<[at |-> b.n, y |-> x.y, w |-> x.w, d |-> x.d]>> ELSE <<>>)
          \o AsciiFields(h, i + 1, n)

MetaOf(f, w, names) ==
  LET g == w.geo IN
  IF g.kind = "bintable" THEN
    [t |-> "meta", kind |-> "bintable", ncols |-> g.ncols, nrows |-> g.rows,
     find |-> Force([ i \in 1..Len(names) |-> Named(g.cols, names[i], 1) - 1 ]),
     z |-> [has |-> g.z.ok, bitpix |-> g.z.bitpix, naxis |-> g.z.naxis], fields |-> <<>>, axes |-> <<>>]
  ELSE
    [t |-> "meta", kind |-> "ascii", ncols |-> g.ncols, nrows |-> g.rows, find |-> <<>>,
     z |-> [has |-> FALSE, bitpix |-> 0, naxis |-> <<>>],
     fields |-> AsciiFields(Assemble(CardsIn(f, w.hd, FindEnd(f, w.hd))), 1, g.ncols),
     axes |-> g.naxis]
MetaMatches(f, w, names, obs) ==
  IF w.du = 0 \/ w.geo.kind = "image" THEN obs.t = "na" ELSE obs = MetaOf(f, w, names)
=============================================================================
