---------------------------- MODULE HeaderView -----------------------------
(***************************************************************************)
(* What a header lets its user see: cards, the map in order, look-ups,     *)
(* typed access, history, units, reverse look-up, deserialization.         *)
(***************************************************************************)
EXTENDS Header

Unpredicted(v) == v.t = "flt" /\ v.s = <<63>>

(***************************************************************************)
(* Typed access: the result is [st, s, e] with st "ok" "none" "err".       *)
(***************************************************************************)
Refused == [st |-> "err", s |-> <<>>, e |-> 0]
Nothing == [st |-> "none", s |-> <<>>, e |-> 0]
Given(s, e) == [st |-> "ok", s |-> s, e |-> e]
AnyDigits == [st |-> "ok", s |-> <<63>>, e |-> 0]

Pow2Dec == [ u8  |-> <<2,5,5>>, u16 |-> <<6,5,5,3,5>>, u32 |-> <<4,2,9,4,9,6,7,2,9,5>>,
             i8  |-> <<1,2,7>>, i16 |-> <<3,2,7,6,7>>, i32 |-> <<2,1,4,7,4,8,3,6,4,7>> ]
Unsigneds == {"u8", "u16", "u32", "u64"}
Signeds == {"i8", "i16", "i32", "i64"}
InRange(v, ty) ==
  LET m == IntMag(v) IN
  IF ty \in Unsigneds
  THEN (~IntNeg(v) \/ m = <<>>) /\ (ty = "u64" \/ BLe(m, BDec(Pow2Dec[ty])))
  ELSE ty = "i64" \/ BLe(m, BAdd(BDec(Pow2Dec[ty]), IF IntNeg(v) THEN <<1>> ELSE <<>>))

\* decimal digits and exponent of an integer read as a float
IntAsFloat(v, most) ==
  LET d == IF IntNeg(v) THEN Tail(v.s) ELSE v.s
      sig == TrimEndSet(d, {48})
      neg == IF IntNeg(v) THEN <<45>> ELSE <<>>
  IN IF sig = <<>> THEN Given(<<48>>, 0)
     ELSE IF Len(sig) > most THEN AnyDigits
     ELSE Given(neg \o sig, Len(d) - Len(sig))
FloatDigits(v) == IF FirstIs(v.s, 45) THEN Len(v.s) - 1 ELSE Len(v.s)
IsSpecial(v) == v.s \in { S("inf"), S("-inf"), S("nan") }
AsFloat(v, most, lo, hi) ==
  CASE v.t = "int" -> IntAsFloat(v, most)
    [] v.t = "flt" ->
         IF Unpredicted(v) THEN AnyDigits
         ELSE IF IsSpecial(v) \/ v.s \in {<<48>>, <<45, 48>>} THEN Given(v.s, v.e)
         ELSE IF FloatDigits(v) > most \/ v.e + FloatDigits(v) > hi \/ v.e < lo THEN AnyDigits
         ELSE Given(v.s, v.e)
    [] OTHER -> Refused

Plain(v, ty) ==
  CASE ty \in Unsigneds \cup Signeds ->
         IF v.t = "int" /\ InRange(v, ty) THEN Given(v.s, 0) ELSE Refused
    [] ty = "bool" -> IF v.t = "log" THEN Given(v.s, 0) ELSE Refused
    [] ty \in {"str", "bstr"} -> IF v.t \in {"str", "inv"} THEN Given(v.s, 0) ELSE Refused
    [] ty = "char" -> IF v.t \in {"str", "inv"} /\ Len(v.s) = 1 THEN Given(v.s, 0) ELSE Refused
    [] ty = "f64" -> AsFloat(v, 15, -300, 300)
    [] ty = "f32" -> AsFloat(v, 6, -30, 37)
Optional(v, ty) == IF v.t = "und" THEN Nothing ELSE Plain(v, ty)
Typed(v, ty) ==
  CASE ty = "oi64" -> Optional(v, "i64")
    [] ty = "ou8" -> Optional(v, "u8")
    [] ty = "of64" -> Optional(v, "f64")
    [] ty = "ostr" -> Optional(v, "str")
    [] ty = "obool" -> Optional(v, "bool")
    [] OTHER -> Plain(v, ty)
TypedMatches(exp, o) == exp.st = o.st /\ (exp = o \/ exp.s = <<63>>)

(***************************************************************************)
(* The unit a comment starts with, in square brackets                      *)
(***************************************************************************)
NoText == [has |-> FALSE, s |-> <<>>]
Text(s) == [has |-> TRUE, s |-> s]
UnitOf(v) ==
  LET c == TrimStart(v.c)
      close == IndexOf(c, 93)
  IN IF ~v.hc \/ ~FirstIs(c, 91) \/ close = 0 THEN NoText ELSE Text(SubSeq(c, 2, close - 1))

(***************************************************************************)
(* Reverse look-up: the first keyword holding an equal value               *)
(***************************************************************************)
Zeros == {<<48>>, <<45, 48>>}
SameValue(a, b) ==
  /\ ~(a.t = "flt" /\ a.s = S("nan"))
  /\ \/ a = b
     \/ a.t = "flt" /\ b.t = "flt" /\ a.s \in Zeros /\ b.s \in Zeros /\ a.c = b.c /\ a.hc = b.hc
RECURSIVE FirstWith(_, _, _)
FirstWith(h, v, i) == IF i > Len(h.vals) THEN NoText
                      ELSE IF SameValue(h.vals[i], v) THEN Text(h.keys[i]) ELSE FirstWith(h, v, i + 1)
AllPredicted(h) == \A i \in 1..Len(h.vals) : ~Unpredicted(h.vals[i])

EntryMatches(h, i, o, sure) ==
  LET v == h.vals[i] IN
  /\ o.k = h.keys[i] /\ ValueMatches(v, o.v) /\ o.u = UnitOf(v)
  /\ ~sure \/ o.r = FirstWith(h, v, 1)

Plainly(v) == [t |-> IF v.t = "inv" THEN "str" ELSE v.t, s |-> v.s, e |-> v.e]
DeMatches(h, i, o) ==
  /\ o.k = h.keys[i]
  /\ \/ o.v = Plainly(h.vals[i])
     \/ Unpredicted(h.vals[i]) /\ o.v.t = "flt"

(***************************************************************************)
(* Appending continuation cards to a card, directly                        *)
(***************************************************************************)
RECURSIVE Gather(_, _, _)
Gather(v, cards, j) ==
  IF j > Len(cards) \/ cards[j].k # "Continuation" \/ ~Continued(v) THEN v
  ELSE Gather(SpliceValue(v, cards[j].s, cards[j].c, cards[j].hc), cards, j + 1)
Spliced(cards, i) == [cards[i] EXCEPT !.v = Gather(cards[i].v, cards, i + 1)]
LongStarts(cards) == { i \in 1..Len(cards) : cards[i].k \in {"Value", "Hierarch"} /\ Continued(cards[i].v) }

(***************************************************************************)
(* The whole view                                                          *)
(***************************************************************************)
CardsMatch(cards, o) == Len(o) = Len(cards) /\ \A i \in 1..Len(cards) : CardMatches(cards[i], o[i])
MapMatches(h, o) ==
  LET sure == AllPredicted(h) IN
  /\ o.keys = h.keys /\ Len(o.map) = Len(h.keys)
  /\ \A i \in 1..Len(h.keys) : EntryMatches(h, i, o.map[i], sure)
GetMatches(h, q, o) ==
  LET v == Lookup(h, q.key) IN
  /\ o.has = HasKey(h, q.key) /\ ValueMatches(v, o.v)
  /\ TypedMatches(Typed(v, q.ty), o.o)
ViewMatches(cards, q, o) ==
  LET h == Assemble(cards) IN
  /\ o.t = "hdr"
  /\ CardsMatch(cards, o.cards)
  /\ MapMatches(h, o)
  /\ o.hist = History(cards)
  /\ Len(o.get) = Len(q) /\ \A i \in 1..Len(q) : GetMatches(h, q[i], o.get[i])
  /\ Len(o.de) = Len(h.keys) /\ \A i \in 1..Len(h.keys) : DeMatches(h, i, o.de[i])
  /\ { o.splice[i].i : i \in 1..Len(o.splice) } = LongStarts(cards)
  /\ \A i \in 1..Len(o.splice) : o.splice[i].same /\ CardMatches(Spliced(cards, o.splice[i].i), o.splice[i].c)
=============================================================================
