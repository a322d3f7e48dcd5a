------------------------------ MODULE MC_Image -----------------------------
(***************************************************************************)
(* The image data of every length up to MaxLen, whole or cut short, and    *)
(* every session of MaxOps calls: the iterator and random access share one *)
(* position in the file.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxLen, MaxOps
VARIABLES len, have, cur, got, from, dead, log

Init == len \in 0..MaxLen /\ have \in 0..len /\ cur = 0 /\ got = <<>> /\ from = 0 /\ dead = FALSE /\ log = <<>>
Min(a, b) == IF a <= b THEN a ELSE b
Take(n) == LET m == Min(n, have - cur) IN
  /\ got' = got \o [ i \in 1..m |-> cur + i - 1 ] /\ cur' = cur + m
  /\ dead' = (m < n /\ have < len)                \* ran into the end of the file: nothing more is promised
  /\ log' = Append(log, [k |-> "it", n |-> n]) /\ UNCHANGED <<len, have, from>>
At(k) ==
  /\ IF k < have THEN cur' = k + 1 /\ got' = <<k>> /\ from' = k /\ dead' = FALSE
     ELSE UNCHANGED <<cur, got, from>> /\ dead' = (k < len)
  /\ log' = Append(log, [k |-> "rv", n |-> k]) /\ UNCHANGED <<len, have>>
Next == Len(log) < MaxOps /\ ~dead /\ (\E n \in {1, 2, MaxLen + 1} : Take(n) \/ \E k \in 0..MaxLen : At(k))
Spec == Init /\ [][Next]_<<len, have, cur, got, from, dead, log>>

\* consecutive pixels from the last position on
Consecutive == got = [ i \in 1..Len(got) |-> from + i - 1 ] /\ cur = from + Len(got)
Inside == cur <= have
Emit == (Len(log) = MaxOps \/ dead) => PrintT("CASE " \o ToJson([len |-> len, have |-> have, log |-> log]))
=============================================================================
