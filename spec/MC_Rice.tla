------------------------------ MODULE MC_Rice ------------------------------
(***************************************************************************)
(* An encoder for RICE_1, written independently of the decoder in Rice:    *)
(* every sequence of up to MaxPixels pixels from Vals, in blocks of any of *)
(* the sizes in BlockSizes, every block with any code that can hold it.    *)
(* What it writes decodes to what was encoded, and is replayed into the    *)
(* real code.                                                              *)
(***************************************************************************)
EXTENDS Rice, Json
CONSTANTS MaxPixels, BlockSizes, Codes, Many
VARIABLES nb, px, bits

Few == { W(0, 0), W(0, 1), W(65535, 65535), W(32767, 65535), W(32768, 0) }
More == Few \cup { W(0, 200), W(65535, 65280), W(1, 0) }
Vals == IF Many THEN More ELSE Few

HalfBits(x) == [ i \in 1..16 |-> (x \div P2(16 - i)) % 2 ]
WordBits(a) == Force(HalfBits(a.h) \o HalfBits(a.l))
RECURSIVE Number(_)
Number(b) == IF b = <<>> THEN 0 ELSE 2 * Number(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
MaxRun == 40
\* the mapped difference m under code c: its bits, or <<2>> when the code cannot hold it
Piece(m, c) ==
  LET b == WordBits(m)
      fs == c - 1
      high == SubSeq(b, 1, 32 - fs)
      small == \A i \in 1..(Len(high) - 6) : high[i] = 0
      run == Number(SubSeq(high, Max2(1, Len(high) - 5), Len(high)))
  IN IF c = 26 THEN b
     ELSE IF c = 0 THEN (IF m = WZero THEN <<>> ELSE <<2>>)
     ELSE IF ~small \/ run > MaxRun THEN <<2>>
     ELSE Fill(run, 0) \o <<1>> \o SubSeq(b, 33 - fs, 32)
RECURSIVE Pieces(_, _, _)
Pieces(last, new, c) ==
  IF new = <<>> THEN <<>>
  ELSE Piece(Mapped(WSub(Head(new), last)), c) \o Pieces(Head(new), Tail(new), c)
CodeBits(c) == [ i \in 1..5 |-> (c \div P2(5 - i)) % 2 ]

Init == nb \in BlockSizes /\ px = <<>> /\ bits = <<>>
\* a block of n pixels; only the last one is shorter than nb
Block(new, c) ==
  LET last == IF px = <<>> THEN Head(new) ELSE px[Len(px)]
      body == Pieces(last, new, c)
  IN /\ \A i \in 1..Len(body) : body[i] # 2
     /\ px' = px \o new
     /\ bits' = (IF px = <<>> THEN WordBits(Head(new)) ELSE bits) \o CodeBits(c) \o body
Next == /\ Len(px) < MaxPixels /\ Len(px) % nb = 0
        /\ \E n \in 1..Min2(nb, MaxPixels - Len(px)) : \E new \in [1..n -> Vals] : \E c \in Codes : Block(Force(new), c)
        /\ UNCHANGED nb
Spec == Init /\ [][Next]_<<nb, px, bits>>

BytesOf == LET n == (Len(bits) + 7) \div 8
               all == bits \o Fill(8 * n - Len(bits), 0)
           IN Force([ i \in 1..n |-> Number(SubSeq(all, 8 * i - 7, 8 * i)) ])
RoundTrip == px # <<>> => LET d == Decode(BytesOf, Len(px), nb) IN d.st = "ok" /\ d.px = px
\* a stream that lacks its last byte is never taken for a whole one with other pixels
Short == px # <<>> => LET d == Decode(SubSeq(BytesOf, 1, Len(BytesOf) - 1), Len(px), nb) IN d.st = "ok" => d.px = px
ASSUME Inverse == \A v \in More : Unmapped(Mapped(v)) = v
Emit == px # <<>> => PrintT("CASE " \o ToJson([nb |-> nb, n |-> Len(px), b |-> BytesOf]))
=============================================================================
