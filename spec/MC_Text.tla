------------------------------ MODULE MC_Text ------------------------------
(***************************************************************************)
(* All texts up to MaxLen over the characters that matter to the lexer of  *)
(* a value field.  Each text is used twice: as the contents of a character *)
(* string (the round trip below must hold for it), and as it stands, as a  *)
(* value field.  Every one is replayed into the real code.                 *)
(***************************************************************************)
EXTENDS Header, Json
CONSTANT MaxLen
VARIABLE txt

Letters == {97, QUOTE, AMP, SP, SLASH}
Init == txt = <<>>
Next == Len(txt) < MaxLen /\ \E c \in Letters : txt' = Append(txt, c)
Spec == Init /\ [][Next]_txt

RECURSIVE Doubled(_)
Doubled(s) == IF s = <<>> THEN <<>>
              ELSE (IF Head(s) = QUOTE THEN <<QUOTE, QUOTE>> ELSE <<Head(s)>>) \o Doubled(Tail(s))
Quoted(s) == <<QUOTE>> \o Doubled(s) \o <<QUOTE>>
Note == S(" it's / x")

\* what was written is what is read, whatever the comment contains
RoundTrip == ValueField(Quoted(txt)) = Good(Val("str", FitsString(txt), 0, <<>>, FALSE))
RoundTripNoted == ValueField(<<SP, SP>> \o Quoted(txt) \o S("  /") \o Note)
                    = Good(Val("str", FitsString(txt), 0, Note, TRUE))
\* padding inside the quotes does not count
RoundTripPadded == ValueField(<<QUOTE>> \o Doubled(txt) \o <<SP, SP, SP, QUOTE>>)
                    = Good(Val("str", FitsString(txt \o <<SP>>), 0, <<>>, FALSE))
\* a long string in two pieces, cut anywhere, is put together again
Record(s) == s \o Fill(80 - Len(s), SP)
Piece(v) == CardRec("Value", S("K"), v, <<>>, <<>>, FALSE)
Long(s) == s # <<>> /\ TrimEnd(s) = s /\ ~LastIs(s, AMP)
Split == Long(txt) =>
  \A i \in 0..(Len(txt) - 1) :
    LET a == ValueField(Quoted(SubSeq(txt, 1, i) \o <<AMP>>)).v
        b == ContinueCard(Record(S("CONTINUE  ") \o Quoted(SubSeq(txt, i + 1, Len(txt)))))
        h == Assemble(<<Piece(a), b>>)
    IN Lookup(h, S("K")).s = txt
\* no text makes the lexer loop or give something without a type
Total == LET v == ValueField(txt) IN v.ok => v.v.t \in {"str", "int", "flt", "log", "und", "inv"}
Emit == PrintT("CASE " \o ToJson([txt |-> txt]))
=============================================================================
