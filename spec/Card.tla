------------------------------- MODULE Card --------------------------------
(***************************************************************************)
(* One 80-byte header record (FITS 4.0, section 4): lexing into a card.    *)
(*                                                                         *)
(* A value is [t, s, e, c, hc]:                                            *)
(*   t  "str" "int" "flt" "log" "und" "inv"                                *)
(*   s  str/inv: the text;  int: canonical decimal;  log: "T" or "F";      *)
(*      flt: [-]significant digits, the number being s * 10^e              *)
(*   e  decimal exponent of a float, 0 otherwise                           *)
(*   c, hc  comment text and whether there is one                          *)
(* A card is [k, name, v, s, c, hc] with k in                              *)
(*   "Value" "Hierarch" "Continuation" "Xtension" "Comment" "History"      *)
(*   "Space" "End" "Undefined"                                             *)
(***************************************************************************)
EXTENDS Bytes, Big

NoComment == [c |-> <<>>, hc |-> FALSE]
Val(t, s, e, c, hc) == [t |-> t, s |-> s, e |-> e, c |-> c, hc |-> hc]
UndefinedValue == Val("und", <<>>, 0, <<>>, FALSE)
CardRec(k, name, v, s, c, hc) == [k |-> k, name |-> name, v |-> v, s |-> s, c |-> c, hc |-> hc]
PlainCard(k, s) == CardRec(k, <<>>, UndefinedValue, s, <<>>, FALSE)

Printable(s) == Force([ i \in 1..Len(s) |-> IF IsPrint(s[i]) THEN s[i] ELSE REPL ])

(***************************************************************************)
(* Value/comment separation.  The lexer has three modes:                   *)
(*   "out"   not inside a string                                           *)
(*   "in"    inside a quoted string                                        *)
(*   "tick"  just after a quote inside a string: it either ended the       *)
(*           string or is the first half of an escaped quote               *)
(***************************************************************************)
RECURSIVE LexFrom(_, _, _, _)
LexFrom(b, i, mode, acc) ==
  IF i > Len(b) THEN [ok |-> TRUE, v |-> acc, slash |-> 0]
  ELSE LET c == b[i] IN
    IF c = QUOTE THEN
      CASE mode = "out"  -> LexFrom(b, i + 1, "in", Append(acc, c))
        [] mode = "in"   -> LexFrom(b, i + 1, "tick", Append(acc, c))
        [] mode = "tick" -> LexFrom(b, i + 1, "in", acc)
    ELSE IF c = SLASH THEN
      IF mode = "in" THEN LexFrom(b, i + 1, mode, Append(acc, c))
      ELSE [ok |-> TRUE, v |-> acc, slash |-> i]
    ELSE IF IsPrint(c) THEN
      LexFrom(b, i + 1, IF mode = "tick" THEN "out" ELSE mode, Append(acc, c))
    ELSE
      IF mode = "out" THEN [ok |-> FALSE, v |-> <<>>, slash |-> 0]
      ELSE LexFrom(b, i + 1, mode, Append(acc, REPL))

SplitValueComment(field) ==
  LET b == Lossy(Trim(field))
      r == LexFrom(b, 1, "out", <<>>)
  IN IF ~r.ok THEN [ok |-> FALSE, v |-> <<>>, c |-> <<>>, hc |-> FALSE]
     ELSE [ok |-> TRUE, v |-> Trim(r.v),
           c |-> IF r.slash = 0 THEN <<>> ELSE TrimEnd(Printable(Slice(b, r.slash + 1, Len(b)))),
           hc |-> r.slash # 0]

(***************************************************************************)
(* Character strings: a null string '' stays empty, a blank one is one     *)
(* space, trailing spaces are not significant otherwise.                   *)
(***************************************************************************)
StringBody(v) ==
  IF FirstIs(v, QUOTE)
  THEN IF Len(v) >= 2 /\ LastIs(v, QUOTE)
       THEN [ok |-> TRUE, s |-> SubSeq(v, 2, Len(v) - 1)]
       ELSE [ok |-> FALSE, s |-> <<>>]
  ELSE IF LastIs(v, QUOTE) THEN [ok |-> FALSE, s |-> <<>>]
  ELSE [ok |-> TRUE, s |-> v]
FitsString(body) ==
  IF body = <<>> THEN <<>>
  ELSE LET t == TrimEnd(body) IN IF t = <<>> THEN <<SP>> ELSE t

(***************************************************************************)
(* Numbers                                                                 *)
(***************************************************************************)
DigitVals(s) == Force([ i \in 1..Len(s) |-> s[i] - 48 ])
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
StripLeadingZeros(s) == TrimStartSet(s, {48})
HasSign(v) == v # <<>> /\ v[1] \in {43, 45}
Negative(v) == FirstIs(v, 45)
Unsigned(v) == IF HasSign(v) THEN Tail(v) ELSE v

\* a 64-bit signed integer
IntLex(v) ==
  LET u == Unsigned(v)
      z == StripLeadingZeros(u)
  IN IF ~AllDigits(u) THEN [ok |-> FALSE, s |-> <<>>]
     ELSE IF Len(z) > 19 THEN [ok |-> FALSE, s |-> <<>>]
     ELSE IF ~BLe(BDec(DigitVals(z)), IF Negative(v) THEN I64MINABS ELSE I64MAX)
       THEN [ok |-> FALSE, s |-> <<>>]
     ELSE [ok |-> TRUE,
           s |-> IF z = <<>> THEN <<48>> ELSE (IF Negative(v) THEN <<45>> ELSE <<>>) \o z]

RECURSIVE DigitSpan(_, _)
DigitSpan(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN 1 + DigitSpan(s, i + 1) ELSE 0

Lower(s) == Force([ i \in 1..Len(s) |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i] ])

RECURSIVE DecInt(_, _)
DecInt(s, acc) == IF s = <<>> THEN acc ELSE DecInt(Tail(s), acc * 10 + (Head(s) - 48))

NoFloat == [ok |-> FALSE, s |-> <<>>, e |-> 0]
\* a decimal floating-point number, as significant digits and an exponent
FloatLex(v) ==
  LET u == Unsigned(v)
      neg == IF Negative(v) THEN <<45>> ELSE <<>>
      n1 == DigitSpan(u, 1)
      dot == n1 + 1 <= Len(u) /\ u[n1 + 1] = 46
      n2 == IF dot THEN DigitSpan(u, n1 + 2) ELSE 0
      p == IF dot THEN n1 + n2 + 2 ELSE n1 + 1            \* first char after the mantissa
      hasE == p <= Len(u) /\ u[p] \in {69, 101}
      q == IF hasE THEN (IF p + 1 <= Len(u) /\ u[p + 1] \in {43, 45} THEN p + 2 ELSE p + 1) ELSE p
      nx == IF hasE THEN DigitSpan(u, q) ELSE 0
      end == IF hasE THEN q + nx ELSE p
      mant == Slice(u, 1, n1) \o Slice(u, n1 + 2, n1 + 1 + n2)
      digs == StripLeadingZeros(mant)
      sig == TrimEndSet(digs, {48})
      xneg == hasE /\ u[p + 1] = 45
      xd == IF hasE THEN StripLeadingZeros(Slice(u, q, q + nx - 1)) ELSE <<>>
      x == IF Len(xd) > 6 THEN 999999 ELSE DecInt(xd, 0)
      e == (IF xneg THEN -x ELSE x) - n2 + (Len(digs) - Len(sig))
  IN IF Lower(u) \in { S("inf"), S("infinity") } THEN [ok |-> TRUE, s |-> neg \o S("inf"), e |-> 0]
     ELSE IF Lower(u) = S("nan") THEN [ok |-> TRUE, s |-> S("nan"), e |-> 0]
     ELSE IF n1 + n2 = 0 \/ (hasE /\ nx = 0) \/ end # Len(u) + 1 THEN NoFloat
     ELSE IF sig = <<>> THEN [ok |-> TRUE, s |-> neg \o <<48>>, e |-> 0]
     ELSE IF Len(sig) > 15 \/ e + Len(sig) > 300 \/ e < -300
       THEN [ok |-> TRUE, s |-> <<63>>, e |-> 0]        \* rounding or range: value not predicted
     ELSE [ok |-> TRUE, s |-> neg \o sig, e |-> e]

DtoE(v) == Force([ i \in 1..Len(v) |-> IF v[i] = 68 THEN 69 ELSE v[i] ])

NumberValue(v, c, hc) ==
  LET i == IntLex(v) IN
  IF i.ok THEN Val("int", i.s, 0, c, hc)
  ELSE LET f == FloatLex(v) IN
    IF f.ok THEN Val("flt", f.s, f.e, c, hc)
    ELSE LET g == FloatLex(DtoE(v)) IN
      IF g.ok THEN Val("flt", g.s, g.e, c, hc)
      ELSE Val("inv", DtoE(v), 0, <<>>, FALSE)

Bad == [ok |-> FALSE, v |-> UndefinedValue]
Good(v) == [ok |-> TRUE, v |-> v]

\* the value field of a card (bytes 11-80, or what follows the = of HIERARCH)
ValueField(field) ==
  LET r == SplitValueComment(field) IN
  IF ~r.ok THEN Bad
  ELSE IF r.v = <<>> THEN Good(UndefinedValue)
  ELSE LET ch == r.v[1] IN
    IF ch = QUOTE THEN
      LET b == StringBody(r.v) IN
      IF b.ok THEN Good(Val("str", FitsString(b.s), 0, r.c, r.hc)) ELSE Bad
    ELSE IF ch = 84 THEN Good(Val("log", <<84>>, 0, r.c, r.hc))
    ELSE IF ch = 70 THEN Good(Val("log", <<70>>, 0, r.c, r.hc))
    ELSE IF ch = 40 THEN Bad                              \* complex values are not supported
    ELSE IF IsDigit(ch) \/ ch \in {43, 45, 46} THEN Good(NumberValue(r.v, r.c, r.hc))
    ELSE Good(Val("inv", Lossy(field), 0, <<>>, FALSE))

(***************************************************************************)
(* The card                                                                *)
(***************************************************************************)
KwCOMMENT == S("COMMENT")
KwHISTORY == S("HISTORY")
KwCONTINUE == S("CONTINUE")
KwXTENSION == S("XTENSION")
KwHIERARCH == S("HIERARCH")
KwEND == S("END")
KwSIMPLE == S("SIMPLE")
TrueValue == <<84>>
XtImage == S("IMAGE")
XtIue == S("IUEIMAGE")
XtTable == S("TABLE")
XtBintable == S("BINTABLE")

Unparsable(b) == PlainCard("Undefined", Lossy(b))
CommentText(field) == TrimEnd(Printable(field))

XtensionCard(b) ==
  LET r == SplitValueComment(Slice(b, 11, 80)) IN
  IF ~r.ok \/ Len(r.v) < 2 \/ ~FirstIs(r.v, QUOTE) \/ ~LastIs(r.v, QUOTE) THEN Unparsable(b)
  ELSE LET x == Trim(SubSeq(r.v, 2, Len(r.v) - 1)) IN
       IF x \in {XtImage, XtIue} THEN CardRec("Xtension", <<>>, UndefinedValue, XtImage, r.c, r.hc)
       ELSE IF x \in {XtTable, XtBintable} THEN CardRec("Xtension", <<>>, UndefinedValue, x, r.c, r.hc)
       ELSE Unparsable(b)

\* words of a HIERARCH keyword joined by dots
RECURSIVE Words(_, _, _)
Words(s, i, cur) ==
  IF i > Len(s) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF s[i] \in WS THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Words(s, i + 1, <<>>)
  ELSE Words(s, i + 1, Append(cur, s[i]))
RECURSIVE Dotted(_)
Dotted(ws) == IF Len(ws) = 1 THEN Lossy(ws[1]) ELSE Lossy(ws[1]) \o <<46>> \o Dotted(Tail(ws))

HierarchCard(b) ==
  LET f == Slice(b, 10, 80)
      eq == IndexOf(f, EQUALS)
  IN IF eq = 0 THEN Unparsable(b)
     ELSE LET ws == Words(Slice(f, 1, eq - 1), 1, <<>>) IN
       IF ws = <<>> THEN Unparsable(b)
       ELSE LET v == ValueField(Slice(f, eq + 1, Len(f))) IN
         IF v.ok THEN CardRec("Hierarch", Dotted(ws), v.v, <<>>, <<>>, FALSE) ELSE Unparsable(b)

ContinueCard(b) ==
  LET r == SplitValueComment(Slice(b, 9, 80)) IN
  IF ~r.ok THEN Unparsable(b)
  ELSE LET s == StringBody(r.v) IN
       IF s.ok THEN CardRec("Continuation", <<>>, UndefinedValue, FitsString(s.s), r.c, r.hc)
       ELSE Unparsable(b)

ValueCard(b, kw) ==
  IF b[9] = EQUALS /\ b[10] = SP
  THEN LET v == ValueField(Slice(b, 11, 80)) IN
       IF v.ok THEN CardRec("Value", Lossy(kw), v.v, <<>>, <<>>, FALSE) ELSE Unparsable(b)
  ELSE Unparsable(b)

ParseCard(b) ==
  LET kw == Trim(Slice(b, 1, 8)) IN
  IF ~ValidUtf8(kw) THEN Unparsable(b)
  ELSE IF kw = <<>> THEN
    LET t == CommentText(Slice(b, 9, 80)) IN
    IF t = <<>> THEN PlainCard("Space", <<>>) ELSE PlainCard("Comment", t)
  ELSE IF kw = KwCOMMENT THEN PlainCard("Comment", CommentText(Slice(b, 9, 80)))
  ELSE IF kw = KwHISTORY THEN PlainCard("History", CommentText(Slice(b, 9, 80)))
  ELSE IF kw = KwCONTINUE THEN ContinueCard(b)
  ELSE IF kw = KwXTENSION THEN XtensionCard(b)
  ELSE IF kw = KwHIERARCH THEN HierarchCard(b)
  ELSE IF kw = KwEND THEN PlainCard("End", <<>>)
  ELSE ValueCard(b, kw)

IsEndRecord(b) == Trim(Slice(b, 1, 8)) = KwEND

\* a prediction matches an observation; "?" is a float whose digits are not predicted
ValueMatches(exp, obs) ==
  \/ exp = obs
  \/ exp.t = "flt" /\ exp.s = <<63>> /\ obs.t = "flt" /\ obs.c = exp.c /\ obs.hc = exp.hc
CardMatches(exp, obs) ==
  /\ exp.k = obs.k /\ exp.name = obs.name /\ exp.s = obs.s /\ exp.c = obs.c /\ exp.hc = obs.hc
  /\ ValueMatches(exp.v, obs.v)
=============================================================================
