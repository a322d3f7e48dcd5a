------------------------------- MODULE Table -------------------------------
(***************************************************************************)
(* Reading a binary table: cells, variable-length arrays, column selection *)
(* and row seeking.                                                        *)
(*                                                                         *)
(* A value is [y, c, i, b]: element type, column (0-based), index of the   *)
(* element in its cell, and its bytes (logicals: 1 or 0; bit columns: the  *)
(* packed byte; array descriptors of tables that hold a compressed image   *)
(* are reported as such, with column -1).                                  *)
(*                                                                         *)
(* A session is [sel, row, p, known]: the selected columns, the row of the *)
(* next cell, the number of values of that row already delivered, and      *)
(* whether the rest of the session can be predicted (reads that ran into   *)
(* the end of the file, or descriptors pointing outside the data unit, end *)
(* the prediction).                                                        *)
(***************************************************************************)
EXTENDS Walk

TyName(c) == CASE c = 76 -> "L" [] c = 88 -> "X" [] c = 66 -> "B" [] c = 73 -> "I" [] c = 74 -> "J"
               [] c = 75 -> "K" [] c = 65 -> "A" [] c = 69 -> "E" [] c = 68 -> "D" [] c = 67 -> "C"
               [] c = 77 -> "M" [] c = 80 -> "P" [] c = 81 -> "Q"

Bits8 == [ i \in 1..8 |-> i ]
\* big-endian bytes to a natural
RECURSIVE BFromBytes(_, _)
BFromBytes(b, acc) == IF b = <<>> THEN acc
                      ELSE BFromBytes(Tail(b), BAdd(BMulSmall(acc, 256), BFrom(Head(b))))

\* where each column starts in a row
ColStart(cols, j) == cols[j].at

ElemValue(ty, col, i, b) ==
  [y |-> TyName(ty), c |-> col, i |-> i,
   b |-> CASE ty = 76 -> (IF b = <<84>> THEN <<1>> ELSE <<0>>)
           [] ty = 88 -> <<b[1], 0>>
           [] OTHER -> b]

\* n elements of type ty stored from byte offset off (Big) on; stops at the end of the file
Elements(f, w, ty, col, off, n) ==
  LET eb == ElemBytes(ty)
      have == PresentBytes(f, w)
      fits == BLe(BAdd(off, BMulSmall(BFrom(n), eb)), have)
      m == IF fits THEN n
           ELSE IF BLe(have, off) THEN 0
           ELSE CHOOSE q \in 0..n : /\ BLe(BAdd(off, BMulSmall(BFrom(q), eb)), have)
                                    /\ ~BLe(BAdd(off, BMulSmall(BFrom(q + 1), eb)), have)
      by == DuBytes(f, w, off, m * eb)
  IN [vals |-> Force([ i \in 1..m |-> ElemValue(ty, col, i - 1, SubSeq(by, (i - 1) * eb + 1, i * eb)) ]),
      st |-> IF m = n THEN "ok" ELSE "cut"]

MaxArray == BFrom(100000)
\* the cell of column j (1-based) in the row that starts at byte base (Big)
Cell(f, w, j, base) ==
  LET col == w.geo.cols[j]
      off == BAdd(base, ColStart(w.geo.cols, j))
      isDesc == col.ty \in {80, 81}
      half == IF col.ty = 80 THEN 4 ELSE 8
      full == BLe(BAdd(off, col.bytes), PresentBytes(f, w))
      d == DuBytes(f, w, off, 2 * half)
      cnt == BFromBytes(SubSeq(d, 1, half), <<>>)
      dst == BFromBytes(SubSeq(d, half + 1, 2 * half), <<>>)
      units == IF col.elem = 88 THEN BDivMod(BAdd(cnt, <<7>>), 8).q ELSE cnt
      hoff == BAdd(w.geo.theap, dst)
  IN IF ~isDesc
     THEN Elements(f, w, col.ty, j - 1, off,
                   IF col.ty = 88 THEN BToInt(col.bytes) ELSE BToInt(col.n))
     ELSE IF ~full THEN [vals |-> <<>>, st |-> "cut"]
     ELSE IF w.geo.z.ok THEN [vals |-> <<[y |-> TyName(col.ty), c |-> -1, i |-> 0, b |-> d]>>, st |-> "ok"]
     ELSE IF cnt = <<>> THEN [vals |-> <<>>, st |-> "ok"]
     ELSE IF ~BLe(cnt, MaxArray)
             \/ ~BLe(BAdd(hoff, BMulSmall(units, ElemBytes(col.elem))), w.geo.size)
       THEN [vals |-> <<>>, st |-> "wild"]
     ELSE Elements(f, w, col.elem, j - 1, hoff, BToInt(units))

\* the values of a row for the selected columns
RowVals(f, w, sel, row) ==
  LET base == BMul(BFrom(row), BFrom(w.geo.rowlen))
      step(acc, j) == IF acc.st # "ok" THEN acc
                      ELSE LET x == Cell(f, w, j, base) IN [vals |-> acc.vals \o x.vals, st |-> x.st]
  IN Fold(step, [vals |-> <<>>, st |-> "ok"], sel)

RowCount(w) == IF BFits(w.geo.rows) THEN BToInt(w.geo.rows) ELSE 1000000000
AllCols(w) == Force([ j \in 1..Len(w.geo.cols) |-> j ])
\* no selected column can hold a value
Barren(w, sel) == \A i \in 1..Len(sel) : w.geo.cols[sel[i]].bytes = <<>>

(***************************************************************************)
(* The calls of a session                                                  *)
(***************************************************************************)
TabInit(w) == [sel |-> AllCols(w), row |-> 0, p |-> 0, known |-> TRUE, fresh |-> TRUE]
NoItems(t) == [t |-> t, v |-> <<>>, ended |-> FALSE]

\* up to n further values
RECURSIVE TakeFrom(_, _, _, _, _)
TakeFrom(f, w, s, n, acc) ==
  IF n = 0 THEN [s |-> s, v |-> acc, ended |-> FALSE]
  ELSE IF s.row >= RowCount(w) \/ Barren(w, s.sel)
    THEN [s |-> s, v |-> acc, ended |-> TRUE]
  ELSE LET r == RowVals(f, w, s.sel, s.row)
           have == Len(r.vals) - s.p
       IN IF n < have \/ (n = have /\ r.st # "ok")
          THEN [s |-> [s EXCEPT !.p = s.p + n], v |-> acc \o SubSeq(r.vals, s.p + 1, s.p + n), ended |-> FALSE]
          ELSE LET got == acc \o Slice(r.vals, s.p + 1, Len(r.vals)) IN
               IF r.st = "ok"
               THEN TakeFrom(f, w, [s EXCEPT !.row = s.row + 1, !.p = 0], n - have, got)
               ELSE [s |-> [s EXCEPT !.known = FALSE], v |-> got, ended |-> r.st = "cut"]

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
ItemsMatch(x, o) ==
  IF x.s.known \/ x.ended THEN o.t = "items" /\ o.v = x.v /\ o.ended = x.ended
  ELSE o.t = "items" /\ IsPrefixOf(x.v, o.v)

\* up to n whole rows, from the current one on (the rest of a row begun)
RECURSIVE TakeRows(_, _, _, _, _)
TakeRows(f, w, s, n, acc) ==
  IF n = 0 THEN [s |-> s, r |-> acc, ended |-> FALSE, st |-> "ok"]
  ELSE IF s.row >= RowCount(w) THEN [s |-> s, r |-> acc, ended |-> TRUE, st |-> "ok"]
  ELSE LET r == RowVals(f, w, s.sel, s.row) IN
       IF r.st # "ok" THEN [s |-> [s EXCEPT !.known = FALSE], r |-> acc, ended |-> TRUE, st |-> r.st]
       ELSE TakeRows(f, w, [s EXCEPT !.row = s.row + 1, !.p = 0], n - 1,
                     Append(acc, Slice(r.vals, s.p + 1, Len(r.vals))))
\* a row cut short by the end of the file is not delivered; nothing is said about rows
\* whose arrays lie outside the data unit
RowsSeen(x, o) ==
  /\ o.t = "rows"
  /\ IF x.st = "wild" THEN IsPrefixOf(x.r, o.r)
     ELSE o.r = x.r /\ o.ended = x.ended
  /\ x.st # "ok" \/ o.at = x.s.row

\* columns named by index or by name; unknown ones are ignored; order and repetition do not matter
Wanted(w, ids) == { IF ids[i].byname THEN Named(w.geo.cols, ids[i].nm, 1)
                    ELSE IF ids[i].ix < Len(w.geo.cols) THEN ids[i].ix + 1 ELSE 0 : i \in 1..Len(ids) } \ {0}
RECURSIVE Sorted(_)
Sorted(set) == IF set = {} THEN <<>>
               ELSE LET m == CHOOSE x \in set : \A y \in set : x <= y IN <<m>> \o Sorted(set \ {m})

\* when the last cells of a row are empty, the reader may stand before them or at the next row
Lingers(f, w, x) ==
  /\ x.s.known /\ ~x.ended /\ x.v # <<>> /\ x.s.p = 0 /\ x.s.row > 0
  /\ Cell(f, w, x.s.sel[Len(x.s.sel)],
          BMul(BFrom(x.s.row - 1), BFrom(w.geo.rowlen))).vals = <<>>
Linger(f, w, s) == [s EXCEPT !.row = s.row - 1, !.p = Len(RowVals(f, w, s.sel, s.row - 1).vals)]

\* the calls sub gave the observations obs: from call i on
RECURSIVE TabSession(_, _, _, _, _, _)
TabSession(f, w, sub, obs, s, i) ==
  IF i > Len(sub) THEN Len(obs) = Len(sub)
  ELSE IF i > Len(obs) THEN FALSE
  ELSE LET op == sub[i]
           o == obs[i]
           next(t) == TabSession(f, w, sub, obs, [t EXCEPT !.fresh = FALSE], i + 1)
       IN
    CASE op.k = "sel"  -> o.t = "sel" /\ next([s EXCEPT !.sel = Sorted(Wanted(w, op.c)), !.p = 0])
      [] op.k = "seek" ->
           IF op.n < RowCount(w)
           THEN o.t = "ok" /\ next([s EXCEPT !.row = op.n, !.p = 0])
           ELSE o.t = "err" /\ next(s)
      [] op.k = "it"   ->
           IF ~s.known THEN o.t = "items" /\ next(s)
           ELSE LET x == TakeFrom(f, w, s, op.n, <<>>) IN
                ItemsMatch(x, o) /\ (next(x.s) \/ (Lingers(f, w, x) /\ next(Linger(f, w, x.s))))
      [] op.k = "raw"  -> o.t = "raw" /\ (o.b = <<>> \/ o.b = RawUnit(f, w)) /\ next(s)
      [] op.k \in {"rows", "rows0"} ->
           IF ~s.known THEN o.t = "rows" /\ next(s)
           ELSE LET x == TakeRows(f, w, s, op.n, <<>>) IN RowsSeen(x, o) /\ next(x.s)
      [] op.k = "bytes" ->
           /\ o.t = "bytes" /\ Len(obs) = i
           /\ ~s.fresh \/ o.b = FirstBytes(f, w, op.n,
                                 BMin(PresentBytes(f, w), BMul(w.geo.naxis[1], w.geo.naxis[2])))

TableSession(f, w, sub, obs) ==
  IF w.geo.rowlen < 0 THEN TRUE
  ELSE TabSession(f, w, sub, obs, TabInit(w), 1)
=============================================================================
