----------------------------- MODULE MC_Accept -----------------------------
(***************************************************************************)
(* Which headers define a data unit, and of which size: every header that  *)
(* differs from a good one in at most MaxDev of its mandatory keywords     *)
(* (absent, mistyped, negative, out of range or just different).  The      *)
(* geometry the specification computes from the cards is compared with a   *)
(* statement of the rules; every header is replayed into the real code.    *)
(***************************************************************************)
EXTENDS Geometry, FiniteSets, Json
CONSTANT MaxDev
VARIABLES kind, pick            \* kind of HDU; which choice is made for each keyword

\* choice 1 is the good one; "" leaves the card out
Ints == << "0", "1", "2", "3", "-1", "T", "'2'", "2.0", "", "9223372036854775807", "9223372036854775808" >>
BpTexts == << "8", "16", "32", "64", "-32", "-64", "0", "-8", "'8'", "8.0", "" >>
Menu(k) ==
  LET g(good, rest) == <<good>> \o rest IN
  CASE k = "image" -> << <<"BITPIX", <<"16">> \o BpTexts>>, <<"NAXIS", <<"2">> \o Ints>>, <<"NAXIS1", <<"5">> \o Ints>>, <<"NAXIS2", <<"7">> \o Ints>> >>
    [] k = "bintable" -> << <<"BITPIX", <<"8">> \o BpTexts>>, <<"NAXIS", <<"2">> \o Ints>>, <<"NAXIS1", <<"6">> \o Ints>>, <<"NAXIS2", <<"7">> \o Ints>>,
                            <<"PCOUNT", <<"0", "9">> \o Ints>>, <<"GCOUNT", <<"1">> \o Ints>>, <<"TFIELDS", <<"2", "1000">> \o Ints>>,
                            <<"TFORM1", <<"'1J'", "'J'", "'3A'", "'1Z'", "", "'32X'", "'25X'", "'0J'", "'1PB(3)'", "7">> >>,
                            <<"TFORM2", <<"'2B'", "'I'", "'A'", "''", "", "'1I (m)'", "'9X'", "'1QE'">> >> >>
    [] k = "ascii" -> << <<"BITPIX", <<"8">> \o BpTexts>>, <<"NAXIS", <<"2">> \o Ints>>, <<"NAXIS1", <<"6">> \o Ints>>, <<"NAXIS2", <<"7">> \o Ints>>,
                         <<"PCOUNT", <<"0">> \o Ints>>, <<"GCOUNT", <<"1">> \o Ints>>, <<"TFIELDS", <<"1", "1000">> \o Ints>> >>

Deviations == { j \in DOMAIN pick : pick[j] # 1 }
Init == /\ kind \in {"image", "bintable", "ascii"}
        /\ pick = [ i \in 1..Len(Menu(kind)) |-> 1 ]
Next == /\ Cardinality(Deviations) < MaxDev
        /\ \E i \in DOMAIN pick :
             /\ \A j \in Deviations : j < i
             /\ \E c \in 2..Len(Menu(kind)[i][2]) : pick' = [pick EXCEPT ![i] = c]
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_<<kind, pick>>

TextOf(i) == Menu(kind)[i][2][pick[i]]
Named0(kw) == CHOOSE i \in 1..Len(Menu(kind)) : Menu(kind)[i][1] = kw
Given0(kw) == IF \E i \in 1..Len(Menu(kind)) : Menu(kind)[i][1] = kw THEN TextOf(Named0(kw)) ELSE ""
Field(kw, t) == LET k == S(kw) IN k \o Fill(8 - Len(k), SP) \o S("= ") \o S(t)
Record(s) == s \o Fill(80 - Len(s), SP)
RECURSIVE CardsFrom(_)
CardsFrom(i) == IF i > Len(Menu(kind)) THEN <<>>
                ELSE (IF TextOf(i) = "" THEN <<>> ELSE <<ParseCard(Record(Field(Menu(kind)[i][1], TextOf(i))))>>)
                     \o CardsFrom(i + 1)
Head0 == Assemble(CardsFrom(1))
Geo == CASE kind = "image" -> ImageGeometry(Head0)
         [] kind = "bintable" -> BinTableGeometry(Head0)
         [] kind = "ascii" -> AsciiGeometry(Head0)

(***************************************************************************)
(* The rules                                                               *)
(***************************************************************************)
Natural == [ t \in { "0", "1", "2", "3", "5", "6", "7", "9", "1000" } |->
               CASE t = "0" -> 0 [] t = "1" -> 1 [] t = "2" -> 2 [] t = "3" -> 3 [] t = "5" -> 5 [] t = "6" -> 6
                 [] t = "7" -> 7 [] t = "9" -> 9 [] t = "1000" -> 1000 ]
Huge == "9223372036854775807"
IsNat(t) == t \in DOMAIN Natural \/ t = Huge
Small(t) == t \in DOMAIN Natural
Widths == [ t \in { "'1J'", "'J'", "'3A'", "'32X'", "'25X'", "'0J'", "'1PB(3)'", "'2B'", "'I'", "'A'", "'1I (m)'", "'9X'", "'1QE'" } |->
              CASE t \in { "'1J'", "'J'", "'32X'", "'25X'" } -> 4 [] t = "'3A'" -> 3 [] t = "'0J'" -> 0 [] t = "'1PB(3)'" -> 8
                [] t \in { "'2B'", "'I'", "'1I (m)'", "'9X'" } -> 2 [] t = "'A'" -> 1 [] t = "'1QE'" -> 16 ]
WidthOf(t) == IF t \in DOMAIN Widths THEN Widths[t] ELSE 0
RowWidth == LET n == Natural[Given0("TFIELDS")] IN
            (IF n >= 1 THEN WidthOf(Given0("TFORM1")) ELSE 0) + (IF n >= 2 THEN WidthOf(Given0("TFORM2")) ELSE 0)
Bytes0 == [ t \in { "8", "16", "32", "64", "-32", "-64" } |->
              CASE t = "8" -> 1 [] t = "16" -> 2 [] t \in {"32", "-32"} -> 4 [] OTHER -> 8 ]
AxesGiven(n) == \A i \in 1..n : i <= 2 /\ IsNat(Given0(IF i = 1 THEN "NAXIS1" ELSE "NAXIS2"))
ImageRule == /\ Given0("BITPIX") \in DOMAIN Bytes0
             /\ Small(Given0("NAXIS"))
             /\ AxesGiven(Natural[Given0("NAXIS")])
TableRule == /\ Given0("BITPIX") = "8" /\ Given0("NAXIS") = "2"
             /\ IsNat(Given0("NAXIS1")) /\ IsNat(Given0("NAXIS2"))
             /\ Given0("GCOUNT") = "1" /\ Small(Given0("TFIELDS")) /\ Natural[Given0("TFIELDS")] <= 999
BinRule == TableRule /\ IsNat(Given0("PCOUNT")) /\ Small(Given0("NAXIS1")) /\ Natural[Given0("NAXIS1")] = RowWidth
AscRule == TableRule /\ Given0("PCOUNT") = "0"
BigOf(t) == IF t = Huge THEN BDec(DigitVals(S(Huge))) ELSE BFrom(Natural[t])
Ax(kw) == BigOf(Given0(kw))
WantedSize ==
  CASE kind = "image" -> LET n == Natural[Given0("NAXIS")] IN
         IF n = 0 THEN <<>>
         ELSE BMul(BFrom(Bytes0[Given0("BITPIX")]), IF n = 1 THEN Ax("NAXIS1") ELSE BMul(Ax("NAXIS1"), Ax("NAXIS2")))
    [] kind = "bintable" -> BAdd(BMul(Ax("NAXIS1"), Ax("NAXIS2")), Ax("PCOUNT"))
    [] kind = "ascii" -> BMul(Ax("NAXIS1"), Ax("NAXIS2"))
Rule == CASE kind = "image" -> ImageRule [] kind = "bintable" -> BinRule [] kind = "ascii" -> AscRule
Accepted == Geo.ok <=> (Rule /\ BLe(WantedSize, U64MAX))
Sized == Geo.ok => Geo.size = WantedSize
Emit == PrintT("CASE " \o ToJson([kind |-> kind, kw |-> [ i \in 1..Len(Menu(kind)) |-> Menu(kind)[i][1] ],
                                  val |-> [ i \in 1..Len(Menu(kind)) |-> TextOf(i) ]]))
=============================================================================
