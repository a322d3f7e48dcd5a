------------------------------ MODULE MC_Async -----------------------------
(***************************************************************************)
(* The asynchronous reader under every arrival plan of up to MaxPlan steps,*)
(* repeated for ever: 0 is a poll that is not ready, k > 0 makes up to k   *)
(* bytes available.  Scaled: R bytes to a record, two records to a block.  *)
(*                                                                         *)
(* The reader does one exact read after the other: header records, header  *)
(* padding, values of the data unit, what is left of it.  `have` bytes of  *)
(* the current one have arrived; a poll that is not ready keeps them.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxPlan, Steps, R, Sizes, Takes, Item
VARIABLES plan, file, cut, take, turn, pos, doing, left, have, hdus, vals, start, quiet
vars == <<plan, file, cut, take, turn, pos, doing, left, have, hdus, vals, start, quiet>>

B == 2 * R
Plans == UNION { [1..n -> Steps] : n \in 1..MaxPlan }
Useful(pl) == \E i \in DOMAIN pl : pl[i] > 0
RoundUp(n) == ((n + B - 1) \div B) * B
\* file: the sizes of the data units of its HDUs; each header is one record and padding
RECURSIVE StartAt(_, _)
StartAt(fl, i) == IF i = 1 THEN 0 ELSE StartAt(fl, i - 1) + B + RoundUp(fl[i - 1])
TotalOf(fl) == StartAt(fl, Len(fl) + 1)
Min(a, b) == IF a <= b THEN a ELSE b

Init ==
  /\ plan \in { q \in Plans : Useful(q) }
  /\ file \in UNION { [1..n -> Sizes] : n \in 1..2 }
  /\ take \in Takes                                  \* values asked for in each data unit
  /\ cut \in { TotalOf(file), TotalOf(file) - 1, StartAt(file, Len(file)) + R, StartAt(file, Len(file)) + 1,
               StartAt(file, Len(file)) + B + 1 } \cap (0..TotalOf(file))
  /\ turn = 1 /\ pos = 0 /\ have = 0 /\ hdus = <<>> /\ vals = <<>> /\ start = TRUE /\ quiet = 0
  /\ doing = "record" /\ left = R

\* what comes after an exact read that is complete
Hdu0 == Len(hdus) + (IF doing \in {"record", "pad"} THEN 1 ELSE 0)
Wanted0 == Min(take, file[Len(hdus)] \div Item)
Given0 == Len(SelectSeq(vals, LAMBDA v : v[1] = Len(hdus)))
ToSkip(n) == RoundUp(file[Len(hdus)]) - n * Item
AfterHeader ==   \* the HDU is reported; its values are asked for, or it is skipped
  /\ hdus' = Append(hdus, pos') /\ UNCHANGED vals
  /\ IF Min(take, file[Len(hdus')] \div Item) > 0 THEN doing' = "value" /\ left' = Item
     ELSE doing' = "skip" /\ left' = RoundUp(file[Len(hdus')])
AfterValue ==
  /\ UNCHANGED hdus
  /\ vals' = Append(vals, <<Len(hdus), pos' - Item - hdus[Len(hdus)]>>)
  /\ IF Given0 + 1 < Wanted0 THEN doing' = "value" /\ left' = Item
     ELSE doing' = "skip" /\ left' = ToSkip(Given0 + 1)
Complete0 ==
  CASE doing = "record" -> doing' = "pad" /\ left' = B - R /\ UNCHANGED <<hdus, vals>>
    [] doing = "pad" -> AfterHeader
    [] doing = "value" -> AfterValue
    [] doing = "skip" -> doing' = "record" /\ left' = R /\ UNCHANGED <<hdus, vals>>

Running == doing \in {"record", "pad", "value", "skip"}
\* one poll of the source
Poll ==
  /\ Running /\ have < left
  /\ turn' = (turn % Len(plan)) + 1
  /\ LET k == Min(plan[turn], Min(left - have, cut - pos)) IN
     IF plan[turn] = 0 THEN UNCHANGED <<pos, have, doing, left, hdus, vals, start>> /\ quiet' = quiet + 1
     ELSE IF k = 0                                     \* the file ends here
     THEN /\ doing' = (CASE doing = "skip" -> "end"
                         [] doing = "record" /\ hdus # <<>> -> "end"
                         [] doing = "value" -> "cut"
                         [] OTHER -> "error")
          /\ UNCHANGED <<pos, have, left, hdus, vals, start>> /\ quiet' = 0
     ELSE /\ pos' = pos + k /\ quiet' = 0 /\ start' = FALSE
          /\ IF have + k = left THEN have' = 0 /\ Complete0
             ELSE have' = have + k /\ UNCHANGED <<doing, left, hdus, vals>>
  /\ UNCHANGED <<plan, file, cut, take>>
\* nothing to skip
Pass == /\ Running /\ left = 0
        /\ Complete0 /\ have' = 0
        /\ UNCHANGED <<plan, file, cut, take, turn, pos, start, quiet>>
Next == Poll \/ Pass
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* whatever the plan: HDUs are found where they are
Found == \A i \in 1..Len(hdus) : hdus[i] = StartAt(file, i) + B
\* values are the consecutive items of their data unit
Consecutive == \A i \in 1..Len(vals) :
  LET mine == SelectSeq(SubSeq(vals, 1, i), LAMBDA v : v[1] = vals[i][1]) IN vals[i][2] = (Len(mine) - 1) * Item
\* no byte is lost or read twice
Account == Running =>
  pos = have + (CASE doing = "record" -> StartAt(file, Len(hdus) + 1)
                  [] doing = "pad" -> StartAt(file, Len(hdus) + 1) + R
                  [] doing \in {"value"} -> hdus[Len(hdus)] + Given0 * Item
                  [] doing = "skip" -> hdus[Len(hdus)] + Given0 * Item)
\* the result depends on the file alone
Outcome == ~Running =>
  /\ doing = "end" => \A i \in 1..Len(file) : StartAt(file, i) + B <= cut => i <= Len(hdus)
  /\ cut = TotalOf(file) => doing = "end" /\ Len(hdus) = Len(file)
     /\ \A i \in 1..Len(file) : Len(SelectSeq(vals, LAMBDA v : v[1] = i)) = Min(take, file[i] \div Item)
\* a source that goes on delivering is read to the end
Terminates == <>(~Running)
Emit == start /\ turn = 1 => PrintT("CASE " \o ToJson([plan |-> plan, file |-> file, cut |-> cut, total |-> TotalOf(file), take |-> take]))
=============================================================================
