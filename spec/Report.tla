------------------------------- MODULE Report ------------------------------
(***************************************************************************)
(* What `fits struct FILE` prints: one entry per HDU the walk reports, then*)
(* nothing; an unsuccessful exit where the walk ends in an error.          *)
(***************************************************************************)
EXTENDS Hook

RECURSIVE Digits(_)
Digits(n) == (IF n < 10 THEN <<>> ELSE Digits(n \div 10)) \o <<48 + (n % 10)>>
RECURSIVE BigText(_)
Four(n) == <<48 + n \div 1000, 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
BigText(x) == IF x = <<>> THEN <<48>>
              ELSE IF Len(x) = 1 THEN Digits(x[1])
              ELSE BigText(Tail(x)) \o Four(x[1])
RECURSIVE Joined(_, _)
Joined(xs, sep) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN BigText(xs[1]) ELSE BigText(Head(xs)) \o sep \o Joined(Tail(xs), sep)

BitpixName(b) == CASE b = 8 -> S("U8") [] b = 16 -> S("I16") [] b = 32 -> S("I32") [] b = 64 -> S("I64")
                   [] b = -32 -> S("F32") [] b = -64 -> S("F64")
TypeName(k) == CASE k = "prim" -> S("PRIMARY") [] k = "image" -> S("IMAGE") [] k = "bintable" -> S("BINTABLE")
                 [] k = "ascii" -> S("ASCIITABLE")
EntryLines(i, o) ==
  << S("HDU[") \o Digits(i) \o S("]:"),
     S(" * HDU type: ") \o TypeName(o.kind),
     IF o.kind \in {"prim", "image"}
     THEN S(" * HEAD naxis: [") \o Joined(o.naxis, S(", ")) \o S("]; bitpix : ") \o BitpixName(o.bitpix)
          \o S("; dimensions: ") \o (IF o.naxis = <<>> THEN S("0") ELSE Joined(o.naxis, S("x"))) \o S(".")
     ELSE S(" * HEAD n_cols: ") \o Digits(o.ncols) \o S("; n_rows: ") \o BigText(o.rows) \o S("."),
     S(" * DATA starting byte: ") \o BigText(o.off) \o S("; byte size: ") \o BigText(o.size) \o S(".") >>

\* lines printed from HDU number i on, and how the command ends
RECURSIVE ReportFrom(_, _, _)
ReportFrom(f, w, i) ==
  LET r == Next1(f, w) IN
  CASE r.obs.t = "hdu" -> LET t == ReportFrom(f, r.w, i + 1) IN [lines |-> EntryLines(i, r.obs) \o t.lines, ends |-> t.ends]
    [] r.obs.t = "none" -> [lines |-> <<<<>>>>, ends |-> {TRUE}]       \* the last line is terminated
    [] r.obs.t = "err" -> [lines |-> <<<<>>>>, ends |-> {FALSE}]
    [] r.obs.t = "stop" -> [lines |-> <<<<>>>>, ends |-> {TRUE, FALSE}]
ReportMatches(f, absent, obs) ==
  LET e == IF absent THEN [lines |-> <<<<>>>>, ends |-> {FALSE}] ELSE ReportFrom(f, WInit, 0) IN
  obs.t = "cli" /\ ~obs.crash /\ obs.lines = e.lines /\ obs.ok \in e.ends
=============================================================================
