----------------------------- MODULE MC_Number -----------------------------
(***************************************************************************)
(* All texts up to MaxLen over the characters numbers are made of, read as *)
(* a value field.  Every one is replayed into the real code.               *)
(***************************************************************************)
EXTENDS Header, Json
CONSTANT MaxLen
VARIABLE txt

Letters == {43, 45, 48, 49, 57, 46, 69, 68}           \* + - 0 1 9 . E D
Init == txt = <<>>
Next == Len(txt) < MaxLen /\ \E c \in Letters : txt' = Append(txt, c)
Spec == Init /\ [][Next]_txt

Num(t) == NumberValue(t, <<>>, FALSE)
Minus(s) == IF FirstIs(s, 45) THEN Tail(s) ELSE <<45>> \o s
\* a sign turns a number into its negative
Signed == (txt # <<>> /\ ~HasSign(txt)) =>
  LET p == Num(txt)
      q == Num(<<45>> \o txt)
  IN /\ p.t = q.t /\ p.e = q.e /\ Num(<<43>> \o txt).t = p.t
     /\ p.t = "int" => q.s = (IF p.s = <<48>> THEN p.s ELSE Minus(p.s))
     /\ p.t = "flt" => q.s = Minus(p.s)
\* leading zeros of an integer do not count; its canonical form reads as itself
Canonical == LET v == Num(txt) IN v.t = "int" =>
  /\ Num(v.s) = v
  /\ ~HasSign(txt) => Num(<<48>> \o txt) = v
  /\ (txt # <<>> /\ HasSign(txt)) => Num(<<txt[1], 48>> \o Tail(txt)) = v
\* E and D say the same
Exponent == LET v == Num(txt)
                w == Num(DtoE(txt))
            IN w = v
\* a number scaled by a power of ten: the digits stay
Scaling == LET v == Num(txt)
               w == Num(txt \o S("E3"))
           IN v.t \in {"int", "flt"} /\ (\A i \in 1..Len(txt) : txt[i] \notin {69, 68}) =>
              /\ w.t = "flt"
              /\ v.t = "flt" /\ v.s \notin {<<48>>, <<45, 48>>} => w.s = v.s /\ w.e = v.e + 3
Emit == PrintT("CASE " \o ToJson([txt |-> txt]))
=============================================================================
