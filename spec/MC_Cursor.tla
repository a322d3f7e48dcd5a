----------------------------- MODULE MC_Cursor -----------------------------
(***************************************************************************)
(* The cursor of a binary table: every layout of up to MaxCols columns     *)
(* with the given element counts, and every session of MaxOps calls.       *)
(* A value is <<row, column, index>>.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxCols, Counts, Rows, MaxOps
VARIABLES cols, rows, sel, row, p, from, got, log

RECURSIVE Ascending(_)
Ascending(set) == IF set = {} THEN <<>>
                  ELSE LET m == CHOOSE x \in set : \A y \in set : x <= y IN <<m>> \o Ascending(set \ {m})
Layouts == UNION { [1..n -> Counts] : n \in 1..MaxCols }
All(c) == Ascending(1..Len(c))

RECURSIVE CellsOf(_, _, _)
CellsOf(c, s, r) == IF s = <<>> THEN <<>>
                    ELSE [ i \in 1..c[Head(s)] |-> <<r, Head(s), i>> ] \o CellsOf(c, Tail(s), r)
RECURSIVE Flat(_, _, _, _)
Flat(c, s, r, n) == IF r >= n THEN <<>> ELSE CellsOf(c, s, r) \o Flat(c, s, r + 1, n)

Init == /\ cols \in Layouts /\ rows \in Rows
        /\ sel = All(cols) /\ row = 0 /\ p = 0 /\ from = 0 /\ got = <<>> /\ log = <<>>

\* one value at a time: the next of this row, or on to the next row
RECURSIVE Deliver(_, _, _)
Deliver(r, q, n) ==
  IF n = 0 \/ r >= rows THEN [row |-> r, p |-> q, v |-> <<>>]
  ELSE LET cs == CellsOf(cols, sel, r) IN
       IF q >= Len(cs) THEN Deliver(r + 1, 0, n)
       ELSE LET t == Deliver(r, q + 1, n - 1) IN [t EXCEPT !.v = <<cs[q + 1]>> \o t.v]

Take(n) == LET d == Deliver(row, p, n) IN
  /\ row' = d.row /\ p' = d.p /\ got' = got \o d.v
  /\ log' = Append(log, [k |-> "it", n |-> n, c |-> <<>>])
  /\ UNCHANGED <<sel, from>>
\* n whole rows: what is left of this one, then the next ones
TakeRows(n) == LET last == IF row + n < rows THEN row + n ELSE rows
                   r == IF row > last THEN row ELSE last
                   cs == CellsOf(cols, sel, row) IN
  /\ row' = r /\ p' = IF r > row THEN 0 ELSE p
  /\ got' = got \o (IF r > row THEN SubSeq(cs, p + 1, Len(cs)) \o Flat(cols, sel, row + 1, r) ELSE <<>>)
  /\ log' = Append(log, [k |-> "rows", n |-> n, c |-> <<>>])
  /\ UNCHANGED <<sel, from>>
Seek(r) ==
  /\ IF r < rows THEN row' = r /\ p' = 0 /\ from' = r /\ got' = <<>>
     ELSE UNCHANGED <<row, p, from, got>>
  /\ log' = Append(log, [k |-> "seek", n |-> r, c |-> <<>>])
  /\ UNCHANGED sel
Select(set) ==
  /\ sel' = Ascending(set) /\ p' = 0 /\ from' = row /\ got' = <<>>
  /\ log' = Append(log, [k |-> "sel", n |-> 0, c |-> Ascending(set)])
  /\ UNCHANGED row
Next == /\ Len(log) < MaxOps
        /\ UNCHANGED <<cols, rows>>
        /\ \/ \E n \in {1, 2, 99} : Take(n)
           \/ \E n \in {1, 99} : TakeRows(n)
           \/ \E r \in 0..rows : Seek(r)
           \/ \E set \in SUBSET (1..Len(cols)) : Select(set)
Spec == Init /\ [][Next]_<<cols, rows, sel, row, p, from, got, log>>

\* what was delivered since the last positioning is what is stored from there on, in order, without gaps
RowMajor == LET f == Flat(cols, sel, from, rows) IN Len(got) <= Len(f) /\ got = SubSeq(f, 1, Len(got))
\* asked for everything, it delivers everything
Exhausts == (log # <<>> /\ log[Len(log)].k \in {"it", "rows"} /\ log[Len(log)].n = 99) => got = Flat(cols, sel, from, rows)
Emit == Len(log) = MaxOps => PrintT("CASE " \o ToJson([cols |-> cols, rows |-> rows, log |-> log]))
=============================================================================
