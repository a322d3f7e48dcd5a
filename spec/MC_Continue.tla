---------------------------- MODULE MC_Continue ----------------------------
(***************************************************************************)
(* All sequences of up to MaxLen cards from a deck chosen for what matters *)
(* to long strings: values open and closed, continuations of every kind,   *)
(* cards in between, orphans.  Every sequence is replayed into the real    *)
(* code.                                                                   *)
(***************************************************************************)
EXTENDS Header, Json
CONSTANT MaxLen
VARIABLES seq, hd          \* indexes into the deck; the header assembled so far

Texts == <<
  "K       = 'ab&'", "K       = 'ab'", "LL      = 'c &'  / one", "K       = 12",
  "CONTINUE  'x&'", "CONTINUE  'y'   / two", "CONTINUE  ''", "CONTINUE  '&'  / three",
  "CONTINUE  5", "COMMENT   'z&'", "CONTINUE= 'u'", "HIERARCH K M = 'h&' / four" >>
Record(s) == s \o Fill(80 - Len(s), SP)
Deck == Force([ i \in 1..Len(Texts) |-> ParseCard(Record(S(Texts[i]))) ])

Init == seq = <<>> /\ hd = HInit
Next == Len(seq) < MaxLen /\ \E i \in 1..Len(Deck) : seq' = Append(seq, i) /\ hd' = Feed(hd, Deck[i])
Spec == Init /\ [][Next]_<<seq, hd>>

CardAtSeq(i) == Deck[seq[i]]
ValueAt(i) == CardAtSeq(i).k \in {"Value", "Hierarch"}
Holders == { i \in 1..Len(seq) : ValueAt(i) }
LastOf(k) == LET at == { i \in Holders : CardAtSeq(i).name = k } IN CHOOSE i \in at : \A j \in at : j <= i
\* the continuation cards that belong to the value at i: those before the next value
Followers(i) == LET later == { j \in Holders : j > i }
                    stop == IF later = {} THEN Len(seq) + 1 ELSE CHOOSE j \in later : \A x \in later : j <= x
                IN { j \in (i + 1)..(stop - 1) : CardAtSeq(j).k = "Continuation" }
RECURSIVE Joined0(_, _)
\* the text of v continued by the cards in js, in order, as long as it is open
Joined0(v, js) ==
  IF js = {} \/ ~Continued(v) THEN v
  ELSE LET j == CHOOSE x \in js : \A y \in js : x <= y
           c == CardAtSeq(j)
       IN Joined0(SpliceValue(v, c.s, c.c, c.hc), js \ {j})

\* keywords in order of first appearance, each once
Order == /\ \A i \in Holders : \E n \in 1..Len(hd.keys) : hd.keys[n] = CardAtSeq(i).name
         /\ \A m, n \in 1..Len(hd.keys) : m # n => hd.keys[m] # hd.keys[n]
         /\ Len(hd.keys) = Len(hd.vals)
\* each keyword has its last value with exactly that value's continuations
Values == \A n \in 1..Len(hd.keys) :
            LET i == LastOf(hd.keys[n]) IN hd.vals[n] = Joined0(CardAtSeq(i).v, Followers(i))
\* no value but an open string is ever changed by a continuation
Closed == \A n \in 1..Len(hd.keys) :
            LET v == CardAtSeq(LastOf(hd.keys[n])).v IN ~Continued(v) => hd.vals[n] = v
\* at most one string is open, and it is one that ends in &
Open == hd.open # 0 => Continued(hd.vals[hd.open])
Emit == Len(seq) > 0 => PrintT("CASE " \o ToJson([seq |-> seq]))
=============================================================================
