----------------------------- MODULE Geometry ------------------------------
(***************************************************************************)
(* From a header's key/value view to the shape of its data unit.           *)
(* A geometry is [ok, kind, bitpix, naxis, cols, rows, size]:              *)
(*   kind   "image" "bintable" "ascii"                                     *)
(*   naxis  axis lengths (Big);  cols  declared columns;  rows (Big)       *)
(*   size   bytes of the data unit, padding excluded (Big)                 *)
(* ok = FALSE: the header is rejected.                                     *)
(***************************************************************************)
EXTENDS HeaderView

KwBITPIX == S("BITPIX")
KwNAXIS == S("NAXIS")
KwNAXIS1 == S("NAXIS1")
KwNAXIS2 == S("NAXIS2")
KwPCOUNT == S("PCOUNT")
KwGCOUNT == S("GCOUNT")
KwTFIELDS == S("TFIELDS")
KwTFORM == S("TFORM")
KwTTYPE == S("TTYPE")
KwTHEAP == S("THEAP")

\* no compressed image in this table
NoImage == [ok |-> FALSE, algo |-> "", nb |-> 0, bitpix |-> 0, naxis |-> <<>>, tile |-> <<>>,
            data |-> 0, scale |-> 0, zero |-> 0, blank |-> 0, kwblank |-> <<>>, method |-> 0, seed |-> 0]
Rejected == [ok |-> FALSE, kind |-> "", bitpix |-> 0, naxis |-> <<>>, ncols |-> 0,
             rows |-> <<>>, size |-> <<>>, rowlen |-> 0, cols |-> <<>>, theap |-> <<>>,
             z |-> NoImage]

Bitpixes == ([ x \in { S("8"), S("16"), S("32"), S("64"), S("-32"), S("-64") } |->
                CASE x = S("8") -> 8 [] x = S("16") -> 16 [] x = S("32") -> 32
                  [] x = S("64") -> 64 [] x = S("-32") -> -32 [] x = S("-64") -> -64 ])
GetBitpix(h) ==
  LET v == Lookup(h, KwBITPIX) IN
  IF v.t = "int" /\ v.s \in DOMAIN Bitpixes THEN Bitpixes[v.s] ELSE 0
ItemBytes(bitpix) == (IF bitpix < 0 THEN -bitpix ELSE bitpix) \div 8

\* product with overflow detection at every step, as 64-bit arithmetic
Over64 == <<-1>>
MulU64(x, y) == IF x = Over64 \/ y = Over64 THEN Over64
                ELSE LET p == BMul(x, y) IN IF BLe(p, U64MAX) THEN p ELSE Over64
AddU64(x, y) == IF x = Over64 \/ y = Over64 THEN Over64
                ELSE LET p == BAdd(x, y) IN IF BLe(p, U64MAX) THEN p ELSE Over64
RECURSIVE ProdFrom(_, _, _)
ProdFrom(acc, xs, i) == IF i > Len(xs) THEN acc ELSE ProdFrom(MulU64(acc, xs[i]), xs, i + 1)

\* NAXIS1..NAXISn; stops at the first one that is missing
RECURSIVE AxesFrom(_, _, _)
AxesFrom(h, i, n) ==
  IF i > n THEN [ok |-> TRUE, a |-> <<>>]
  ELSE LET x == GetU64(h, Indexed(KwNAXIS, i)) IN
       IF ~x.ok THEN [ok |-> FALSE, a |-> <<>>]
       ELSE LET r == AxesFrom(h, i + 1, n) IN [ok |-> r.ok, a |-> <<x.n>> \o r.a]

ImageGeometry(h) ==
  LET bp == GetBitpix(h)
      n == GetU64(h, KwNAXIS)
  IN IF bp = 0 \/ ~n.ok THEN Rejected
     ELSE LET ax == AxesFrom(h, 1, IF BFits(n.n) THEN Min2(BToInt(n.n), Len(h.keys) + 1) ELSE Len(h.keys) + 1)
              size == IF ax.ok /\ ax.a = <<>> THEN <<>>
                      ELSE ProdFrom(BFrom(ItemBytes(bp)), ax.a, 1)
          IN IF ~ax.ok \/ size = Over64 THEN Rejected
             ELSE [Rejected EXCEPT !.ok = TRUE, !.kind = "image", !.bitpix = bp,
                                   !.naxis = ax.a, !.size = size]

(***************************************************************************)
(* Binary-table columns                                                    *)
(***************************************************************************)
ElemTypes == { S("L")[1], S("X")[1], S("B")[1], S("I")[1], S("J")[1], S("K")[1],
               S("A")[1], S("E")[1], S("D")[1], S("C")[1], S("M")[1] }
ElemBytes(c) ==
  CASE c \in { 76, 88, 66, 65 } -> 1          \* L X B A
    [] c = 73 -> 2                            \* I
    [] c \in { 74, 69 } -> 4                  \* J E
    [] c \in { 75, 68, 67 } -> 8              \* K D C
    [] c = 77 -> 16                           \* M

\* a column is [ty, n, bytes, at, elem, name, named]; bytes is its width in a row, at where it starts (Big)
NoColumn == [ok |-> FALSE, ty |-> 0, n |-> <<>>, bytes |-> <<>>, at |-> <<>>, elem |-> 0, name |-> <<>>, named |-> FALSE]
USIZE_REPEAT(d) == LET v == BDec(DigitVals(d)) IN IF d = <<>> \/ ~BLe(v, U64MAX) THEN <<1>> ELSE v
Column(h, i) ==
  LET f == GetText(h, Indexed(KwTFORM, i))
      nm == GetText(h, Indexed(KwTTYPE, i))
      nd == DigitSpan(f.s, 1)
      rep == USIZE_REPEAT(Slice(f.s, 1, nd))
      ty == IF nd + 1 <= Len(f.s) THEN f.s[nd + 1] ELSE 0
      el == IF nd + 2 <= Len(f.s) THEN f.s[nd + 2] ELSE 0
      base == [NoColumn EXCEPT !.ok = TRUE, !.ty = ty, !.name = nm.s, !.named = nm.ok]
  IN IF ~f.ok THEN NoColumn
     ELSE IF ty = 88 THEN                                  \* X: whole bytes
       LET d == BDivMod(BAdd(rep, <<7>>), 8) IN [base EXCEPT !.n = rep, !.bytes = d.q]
     ELSE IF ty \in ElemTypes THEN
       [base EXCEPT !.n = rep, !.bytes = BMul(rep, BFrom(ElemBytes(ty)))]
     ELSE IF ty = 80 /\ el \in ElemTypes THEN [base EXCEPT !.n = <<1>>, !.bytes = <<8>>, !.elem = el]
     ELSE IF ty = 81 /\ el \in ElemTypes THEN [base EXCEPT !.n = <<1>>, !.bytes = <<16>>, !.elem = el]
     ELSE NoColumn

\* the columns the first n fields define, and the width of a row of them
ColumnsOf(h, n) ==
  LET step(acc, i) == LET c == Column(h, i) IN
                      IF c.ok THEN [cols |-> Append(acc.cols, [c EXCEPT !.at = acc.width]), width |-> BAdd(acc.width, c.bytes)]
                      ELSE acc
  IN Fold(step, [cols |-> <<>>, width |-> <<>>], UpTo(n))

(***************************************************************************)
(* A table that holds a tile-compressed image                              *)
(***************************************************************************)
KwZCMPTYPE == S("ZCMPTYPE")
KwZBITPIX == S("ZBITPIX")
KwZNAXIS == S("ZNAXIS")
KwZTILE == S("ZTILE")
KwZNAME == S("ZNAME")
KwZQUANTIZ == S("ZQUANTIZ")
KwZDITHER0 == S("ZDITHER0")
KwZBLANK == S("ZBLANK")
Algorithms == [ x \in { S("GZIP_1"), S("GZIP_2"), S("RICE_1"), S("RICE_ONE") } |->
                 CASE x = S("GZIP_1") -> "gz1" [] x = S("GZIP_2") -> "gz2" [] OTHER -> "rice" ]
Methods == [ x \in { S("SUBTRACTIVE_DITHER_1"), S("SUBTRACTIVE_DITHER_2") } |->
              IF x = S("SUBTRACTIVE_DITHER_1") THEN 1 ELSE 2 ]
TextBLOCKSIZE == S("BLOCKSIZE")
TextVAL == S("ZVAL")
\* ZVALn for the first ZNAMEn that says BLOCKSIZE; 32 unless told otherwise
RECURSIVE BlockSizeFrom(_, _)
BlockSizeFrom(h, i) ==
  IF i > Len(h.keys) THEN 32
  ELSE IF StartsWith(h.keys[i], KwZNAME) /\ h.vals[i].t = "str" /\ h.vals[i].s = TextBLOCKSIZE
  THEN LET v == GetU64(h, TextVAL \o SubSeq(h.keys[i], 6, Len(h.keys[i]))) IN
       IF v.ok /\ BLe(v.n, <<255>>) THEN BToInt(v.n) ELSE BlockSizeFrom(h, i + 1)
  ELSE BlockSizeFrom(h, i + 1)
RECURSIVE ZAxesFrom(_, _, _)
ZAxesFrom(h, i, n) ==
  IF i > n THEN [ok |-> TRUE, a |-> <<>>, t |-> <<>>]
  ELSE LET x == GetU64(h, Indexed(KwZNAXIS, i))
           t == GetU64(h, Indexed(KwZTILE, i))
       IN IF ~x.ok THEN [ok |-> FALSE, a |-> <<>>, t |-> <<>>]
          ELSE LET r == ZAxesFrom(h, i + 1, n) IN
               [ok |-> r.ok, a |-> <<x.n>> \o r.a,
                t |-> <<IF t.ok THEN t.n ELSE IF i = 1 THEN x.n ELSE <<1>> >> \o r.t]
RECURSIVE Named(_, _, _)
Named(cols, nm, j) == IF j > Len(cols) THEN 0
                      ELSE IF cols[j].named /\ cols[j].name = nm THEN j ELSE Named(cols, nm, j + 1)
ColZDATA == S("COMPRESSED_DATA")
ColZGZIP == S("GZIP_COMPRESSED_DATA")
ColZSCALE == S("ZSCALE")
ColZZERO == S("ZZERO")
ZImage(h, cols) ==
  LET c == Lookup(h, KwZCMPTYPE)
      name == TrimEnd(c.s)
      bpv == Lookup(h, KwZBITPIX)
      bp == IF bpv.t = "int" /\ bpv.s \in DOMAIN Bitpixes THEN Bitpixes[bpv.s] ELSE 0
      n == GetU64(h, KwZNAXIS)
  IN IF c.t # "str" \/ name \notin DOMAIN Algorithms \/ bp \in {0, 64} \/ ~n.ok THEN NoImage
     ELSE LET ax == ZAxesFrom(h, 1, IF BFits(n.n) THEN Min2(BToInt(n.n), Len(h.keys) + 1) ELSE Len(h.keys) + 1)
              d1 == Named(cols, ColZDATA, 1)
              d == IF d1 # 0 THEN d1 ELSE Named(cols, ColZGZIP, 1)
              sc == Named(cols, ColZSCALE, 1)
              ze == Named(cols, ColZZERO, 1)
              bl == Named(cols, KwZBLANK, 1)
              Is(j, tys) == cols[j].ty \in tys /\ cols[j].n # <<>>
              q == Lookup(h, KwZQUANTIZ)
              di == Lookup(h, KwZDITHER0)
              kb == Lookup(h, KwZBLANK)
              floats == /\ sc # 0 /\ Is(sc, {69, 68}) /\ ze # 0 /\ Is(ze, {69, 68})
                        /\ bl = 0 \/ Is(bl, {66, 73, 74, 75})
          IN IF ~ax.ok \/ d = 0 \/ cols[d].ty \notin {80, 81} \/ (bp < 0 /\ ~floats) THEN NoImage
             ELSE [ok |-> TRUE, algo |-> Algorithms[name],
                   nb |-> IF Algorithms[name] = "rice" THEN BlockSizeFrom(h, 1) ELSE 0,
                   bitpix |-> bp, naxis |-> ax.a, tile |-> ax.t, data |-> d,
                   scale |-> sc, zero |-> ze, blank |-> bl,
                   kwblank |-> IF bl = 0 /\ kb.t = "int" /\ InRange(kb, "i32") THEN kb.s ELSE <<>>,
                   method |-> IF q.t \in {"str", "inv"} /\ q.s \in DOMAIN Methods THEN Methods[q.s] ELSE 0,
                   seed |-> IF di.t = "int" /\ ~IntNeg(di) /\ BLe(<<1>>, IntMag(di)) /\ BLe(IntMag(di), <<0, 1>>)
                            THEN BToInt(IntMag(di)) ELSE 0]

TableAxes(h) ==
  LET n == GetU64(h, KwNAXIS) IN
  /\ GetBitpix(h) = 8
  /\ n.ok /\ n.n = <<2>>
  /\ GetU64(h, KwNAXIS1).ok /\ GetU64(h, KwNAXIS2).ok
MaxFields == <<999>>

BinTableGeometry(h) ==
  LET w == GetU64(h, KwNAXIS1)
      r == GetU64(h, KwNAXIS2)
      p == GetU64(h, KwPCOUNT)
      g == GetU64(h, KwGCOUNT)
      f == GetU64(h, KwTFIELDS)
      th == GetU64(h, KwTHEAP)
  IN IF ~TableAxes(h) \/ ~p.ok \/ ~g.ok \/ g.n # <<1>> \/ ~f.ok \/ ~BLe(f.n, MaxFields) THEN Rejected
     ELSE LET table == ColumnsOf(h, BToInt(f.n))
              cols == table.cols
              main == MulU64(w.n, r.n)
              size == AddU64(main, p.n)
          IN IF size = Over64 \/ table.width # w.n THEN Rejected
             ELSE [Rejected EXCEPT !.ok = TRUE, !.kind = "bintable", !.bitpix = 8,
                     !.naxis = <<w.n, r.n>>, !.ncols = BToInt(f.n), !.rows = r.n, !.size = size,
                     !.rowlen = IF BFits(w.n) THEN BToInt(w.n) ELSE -1, !.cols = cols,
                     !.theap = IF th.ok THEN th.n ELSE main, !.z = ZImage(h, cols)]

AsciiGeometry(h) ==
  LET w == GetU64(h, KwNAXIS1)
      r == GetU64(h, KwNAXIS2)
      p == GetU64(h, KwPCOUNT)
      g == GetU64(h, KwGCOUNT)
      f == GetU64(h, KwTFIELDS)
      size == MulU64(w.n, r.n)
  IN IF ~TableAxes(h) \/ ~p.ok \/ p.n # <<>> \/ ~g.ok \/ g.n # <<1>> \/ ~f.ok
        \/ ~BLe(f.n, MaxFields) \/ size = Over64 THEN Rejected
     ELSE [Rejected EXCEPT !.ok = TRUE, !.kind = "ascii", !.bitpix = 8, !.naxis = <<w.n, r.n>>,
             !.ncols = BToInt(f.n), !.rows = r.n, !.size = size]

(***************************************************************************)
(* What the first card of a header announces                               *)
(***************************************************************************)
IsPrimary(card) == card.k = "Value" /\ card.name = KwSIMPLE /\ card.v.t = "log" /\ card.v.s = TrueValue
ExtGeometry(card, h) ==
  IF card.k # "Xtension" THEN Rejected
  ELSE CASE card.s = XtImage -> ImageGeometry(h)
         [] card.s = XtBintable -> BinTableGeometry(h)
         [] card.s = XtTable -> AsciiGeometry(h)
=============================================================================
