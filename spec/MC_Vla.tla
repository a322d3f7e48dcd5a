------------------------------- MODULE MC_Vla ------------------------------
(***************************************************************************)
(* Variable-length arrays: two rows whose descriptors take every count and *)
(* offset up to the ends of a small heap (elements of E bytes), with and   *)
(* without a gap before the heap, selected or skipped, in every order of   *)
(* rows.                                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Heap, E, Counts, Offsets, Gaps
VARIABLES desc, gap, visit, got

Descs == { d \in Counts \X Offsets : d[1] * E + d[2] <= Heap }
Visits == { <<1, 2>>, <<2, 1>>, <<1>>, <<2>>, <<2, 2>> }
Init == desc \in Descs \X Descs /\ gap \in Gaps /\ visit \in Visits /\ got = <<>>
\* an array: the positions of its elements in the heap, which starts after the gap
Array(d) == [ i \in 1..d[1] |-> gap + d[2] + (i - 1) * E ]
Next == /\ Len(got) < Len(visit)
        /\ got' = Append(got, Array(desc[visit[Len(got) + 1]]))
        /\ UNCHANGED <<desc, gap, visit>>
Spec == Init /\ [][Next]_<<desc, gap, visit, got>>

\* an array depends on its own descriptor only, and lies within the heap
Own == \A i \in 1..Len(got) : got[i] = Array(desc[visit[i]])
Inside == \A i \in 1..Len(got) : \A j \in 1..Len(got[i]) : got[i][j] >= gap /\ got[i][j] + E <= gap + Heap
Emit == Len(got) = Len(visit) => PrintT("CASE " \o ToJson([desc |-> desc, gap |-> gap, visit |-> visit]))
=============================================================================
