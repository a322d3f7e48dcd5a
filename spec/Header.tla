------------------------------ MODULE Header -------------------------------
(***************************************************************************)
(* From the sequence of cards of a header to its key/value view.           *)
(*                                                                         *)
(* State of the assembly while cards are consumed one at a time:           *)
(*   keys  keywords in order of first appearance                           *)
(*   vals  the value of each of them (same index)                          *)
(*   open  index of the keyword whose long string is still open, or 0      *)
(***************************************************************************)
EXTENDS Card

HInit == [keys |-> <<>>, vals |-> <<>>, open |-> 0]

KeyIndex(h, k) == IF \E i \in 1..Len(h.keys) : h.keys[i] = k
                  THEN CHOOSE i \in 1..Len(h.keys) : h.keys[i] = k ELSE 0

Continued(v) == v.t = "str" /\ LastIs(v.s, AMP)

\* a keyword given again keeps its place and takes the new value
Put(h, k, v) ==
  LET i == KeyIndex(h, k)
      j == IF i = 0 THEN Len(h.keys) + 1 ELSE i
  IN [keys |-> IF i = 0 THEN Append(h.keys, k) ELSE h.keys,
      vals |-> IF i = 0 THEN Append(h.vals, v) ELSE [h.vals EXCEPT ![i] = v],
      open |-> IF Continued(v) THEN j ELSE 0]

\* the ampersand is dropped and the continuation appended; an empty
\* continuation ends the string, whose trailing blanks then do not count
SpliceText(s, t) ==
  LET body == SubSeq(s, 1, Len(s) - 1) IN
  IF t = <<>> \/ t = <<SP>> THEN TrimEnd(body) ELSE body \o t
SpliceValue(v, t, c, hc) ==
  [v EXCEPT !.s = SpliceText(v.s, t),
            !.c = IF v.hc THEN (IF hc THEN v.c \o <<10>> \o c ELSE v.c) ELSE c,
            !.hc = v.hc \/ hc]

Extend(h, card) ==
  IF h.open = 0 THEN h                 \* an orphan CONTINUE is commentary
  ELSE LET v == SpliceValue(h.vals[h.open], card.s, card.c, card.hc) IN
       [h EXCEPT !.vals[h.open] = v, !.open = IF Continued(v) THEN h.open ELSE 0]

Feed(h, card) ==
  CASE card.k \in {"Value", "Hierarch"} -> Put(h, card.name, card.v)
    [] card.k = "Xtension" -> Put(h, KwXTENSION, Val("str", card.s, 0, <<>>, FALSE))
    [] card.k = "Continuation" -> Extend(h, card)
    [] OTHER -> h

Assemble(cards) == Fold(Feed, HInit, cards)

HasKey(h, k) == KeyIndex(h, k) # 0
Lookup(h, k) == LET i == KeyIndex(h, k) IN IF i = 0 THEN UndefinedValue ELSE h.vals[i]

RECURSIVE HistoryFrom(_, _)
HistoryFrom(cards, i) ==
  IF i > Len(cards) THEN <<>>
  ELSE (IF cards[i].k = "History" THEN <<cards[i].s>> ELSE <<>>) \o HistoryFrom(cards, i + 1)
History(cards) == HistoryFrom(cards, 1)

(***************************************************************************)
(* Typed access                                                            *)
(***************************************************************************)
IntNeg(v) == FirstIs(v.s, 45)
IntMag(v) == BDec(DigitVals(IF IntNeg(v) THEN Tail(v.s) ELSE v.s))
\* a non-negative integer, as a Big
AsU64(v) == IF v.t = "int" /\ ~IntNeg(v) THEN [ok |-> TRUE, n |-> IntMag(v)] ELSE [ok |-> FALSE, n |-> <<>>]
GetU64(h, k) == AsU64(Lookup(h, k))
AsText(v) == IF v.t \in {"str", "inv"} THEN [ok |-> TRUE, s |-> v.s] ELSE [ok |-> FALSE, s |-> <<>>]
GetText(h, k) == AsText(Lookup(h, k))

\* decimal digits of a small natural, as text
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Indexed(kw, n) == kw \o Dec(n)
=============================================================================
