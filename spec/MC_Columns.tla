----------------------------- MODULE MC_Columns -----------------------------
(***************************************************************************)
(* All column formats up to MaxLen characters over the characters that     *)
(* matter, for binary tables (repeat count, type, element type) and for    *)
(* ASCII tables (letter, width, decimals).  The specification's reading of *)
(* each is compared with the grammar of the standard, stated as the        *)
(* existence of a decomposition.  Every format is replayed into the real   *)
(* code as a column between two columns that must not be disturbed.        *)
(***************************************************************************)
EXTENDS Columns, FiniteSets, Json
CONSTANT MaxLen
NoRecord(i) == <<>>
NoSeed(i) == 1
VARIABLES tab, form              \* which kind of table; the format

BinLetters == { 48, 50, 57, 74, 88, 80, 81, 66, 32, 40, 90 }           \* 0 2 9 J X P Q B blank ( Z
AscLetters == { 65, 73, 69, 70, 46, 48, 51, 43, 45, 32, 97 }           \* A I E F . 0 3 + - blank a
Init == tab \in {"bin", "asc"} /\ form = <<>>
Next == /\ Len(form) < MaxLen
        /\ \E c \in (IF tab = "bin" THEN BinLetters ELSE AscLetters) : form' = Append(form, c)
        /\ UNCHANGED tab
Spec == Init /\ [][Next]_<<tab, form>>

StrCard(kw, s) == [ParseCard(S("K       = 'x'") \o Fill(67, SP)) EXCEPT !.name = kw, !.v = Val("str", FitsString(s), 0, <<>>, FALSE)]
Head0 == Assemble(<< StrCard(S("TFORM1"), form) >>)
Col == Column(Head0, 1)
Read == FitsString(form)                   \* the string a header can hold

(***************************************************************************)
(* The grammar                                                             *)
(***************************************************************************)
Digits(s) == \A i \in DOMAIN s : s[i] \in 48..57
RECURSIVE Value0(_)
Value0(s) == IF s = <<>> THEN 0 ELSE 10 * Value0(SubSeq(s, 1, Len(s) - 1)) + (s[Len(s)] - 48)
\* rT: digits, then a type letter that is not a digit; P and Q need an element type behind them
Cuts(s) == { k \in 0..(Len(s) - 1) : Digits(SubSeq(s, 1, k)) /\ s[k + 1] \notin 48..57 }
Count(s, k) == IF k = 0 THEN 1 ELSE Value0(SubSeq(s, 1, k))
BinGood(s) == \E k \in Cuts(s) : \/ s[k + 1] \in {74, 88, 66}
                                 \/ s[k + 1] \in {80, 81} /\ k + 2 <= Len(s) /\ s[k + 2] \in {74, 88, 66}
BinWidth(s) == LET k == CHOOSE x \in Cuts(s) : TRUE IN
  CASE s[k + 1] = 74 -> 4 * Count(s, k) [] s[k + 1] = 66 -> Count(s, k)
    [] s[k + 1] = 88 -> (Count(s, k) + 7) \div 8 [] s[k + 1] = 80 -> 8 [] s[k + 1] = 81 -> 16
BinAgrees == tab = "bin" =>
  /\ Col.ok <=> BinGood(Read)
  /\ Col.ok => BToInt(Col.bytes) = BinWidth(Read)

Strip(s) == IF s # <<>> /\ s[1] = 43 THEN Tail(s) ELSE s
Nat0(s) == Strip(s) # <<>> /\ Digits(Strip(s))
RECURSIVE Unpadded(_)
Unpadded(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN Unpadded(SubSeq(s, 1, Len(s) - 1)) ELSE s
AscGood(s) ==
  \/ \E a \in {65, 73} : s # <<>> /\ s[1] = a /\ Nat0(Tail(s))
  \/ \E k \in 2..Len(s) : s[1] \in {69, 70} /\ s[k] = 46 /\ Nat0(SubSeq(s, 2, k - 1)) /\ Nat0(SubSeq(s, k + 1, Len(s)))
AscAgrees == tab = "asc" =>
  LET x == AsciiForm(form)
      u == Unpadded(form)
  IN /\ x.ok <=> AscGood(u)
     /\ (x.ok /\ u[1] \in {65, 73}) => BToInt(x.w) = Value0(Strip(Tail(u))) /\ x.d = <<>>
     /\ (x.ok /\ u[1] \notin {65, 73}) => \E k \in 2..Len(u) : u[k] = 46 /\ BToInt(x.w) = Value0(Strip(SubSeq(u, 2, k - 1)))
                                                                /\ BToInt(x.d) = Value0(Strip(SubSeq(u, k + 1, Len(u))))
Emit == PrintT("CASE " \o ToJson([tab |-> tab, form |-> form,
                                  width |-> IF tab = "bin" /\ Col.ok THEN BToInt(Col.bytes) ELSE 0]))
=============================================================================
