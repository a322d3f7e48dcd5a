------------------------------ MODULE MC_Walk ------------------------------
(***************************************************************************)
(* The walk over a whole family of files, in quarters of a block (Q bytes  *)
(* each, four to a block).  Every file of up to MaxHdus HDUs, with data    *)
(* units of every size class, cut at every quarter, and every history of   *)
(* data accesses between the steps of the walk.                            *)
(*                                                                         *)
(* The reader keeps only where the current data unit starts and how long   *)
(* it is; `pos` is wherever the accesses left the underlying reader.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxHdus, Kinds, Sizes, Accesses
VARIABLES file, cut, pos, du, size, phase, seen, log

RoundUp4(n) == ((n + 3) \div 4) * 4
Hdu == [kind : Kinds, size : Sizes]
Files == UNION { { fl \in [1..n -> Hdu] : fl[1].kind = "image" } : n \in 1..MaxHdus }
RECURSIVE StartOf(_, _)
StartOf(fl, i) == IF i = 1 THEN 0 ELSE StartOf(fl, i - 1) + 4 + RoundUp4(fl[i - 1].size)
TotalOf(fl) == StartOf(fl, Len(fl)) + 4 + RoundUp4(fl[Len(fl)].size)

Init == /\ file \in Files
        /\ cut \in 0..TotalOf(file)
        /\ pos = 0 /\ du = 0 /\ size = 0 /\ phase = "start" /\ seen = <<>> /\ log = <<>>

\* which HDU has its header at quarter p (0: none)
HduAt(p) == IF \E i \in 1..Len(file) : StartOf(file, i) = p
            THEN CHOOSE i \in 1..Len(file) : StartOf(file, i) = p ELSE 0
Step ==
  /\ phase \in {"start", "in"}
  /\ LET at == IF phase = "start" THEN 0 ELSE du + RoundUp4(size) IN
     IF at >= cut /\ phase = "in"
     THEN phase' = "end" /\ UNCHANGED <<pos, du, size, seen>>
     ELSE IF at + 4 > cut
     THEN phase' = "error" /\ UNCHANGED <<pos, du, size, seen>>
     ELSE /\ phase' = "in" /\ pos' = at + 4 /\ du' = at + 4
          /\ size' = file[HduAt(at)].size /\ seen' = Append(seen, HduAt(at))
  /\ log' = Append(log, "next")
  /\ UNCHANGED <<file, cut>>
\* some, all, or more than the data unit is read, if it is there
Touch(a) ==
  /\ phase = "in" /\ log[Len(log)] = "next" /\ a # "no"
  /\ pos' = (CASE a = "part" -> IF du + 1 < cut THEN du + 1 ELSE cut
               [] a = "all"  -> IF du + size < cut THEN du + size ELSE cut
               [] a = "past" -> IF du + size + 5 < cut THEN du + size + 5 ELSE cut)
  /\ log' = Append(log, a)
  /\ UNCHANGED <<file, cut, du, size, phase, seen>>
Next == Step \/ \E a \in Accesses : Touch(a)
Spec == Init /\ [][Next]_<<file, cut, pos, du, size, phase, seen, log>> /\ WF_<<file, cut, pos, du, size, phase, seen, log>>(Step)

\* every HDU once, in order, and where it is - whatever was accessed before
InOrder == /\ seen = [ i \in 1..Len(seen) |-> i ] /\ Len(seen) <= Len(file)
           /\ phase = "in" => du = StartOf(file, Len(seen)) + 4 /\ size = file[Len(seen)].size
\* the walk ends where the file does
Whole(i) == StartOf(file, i) + 4 <= cut
Complete == phase = "end" =>
  /\ \A i \in 1..Len(file) : Whole(i) <=> i <= Len(seen)
  /\ Len(seen) < Len(file) => cut <= StartOf(file, Len(seen) + 1)
\* and fails where a header is incomplete
Broken == phase = "error" =>
  /\ cut < StartOf(file, Len(seen) + 1) + 4 /\ \A i \in 1..Len(seen) : Whole(i)
  /\ seen # <<>> => cut > StartOf(file, Len(seen) + 1)
\* an uncut file is walked to its end
Intact == cut = TotalOf(file) /\ phase \in {"end", "error"} => phase = "end" /\ Len(seen) = Len(file)
Terminates == <>(phase \in {"end", "error"})
Emit == phase \in {"end", "error"} => PrintT("CASE " \o ToJson([file |-> file, cut |-> cut, log |-> log]))
=============================================================================
