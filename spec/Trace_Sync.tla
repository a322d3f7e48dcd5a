----------------------------- MODULE Trace_Sync ----------------------------
(***************************************************************************)
(* Trace validation of histories of calls on the readers.                   *)
(* The input (environment variable CASES) is newline-delimited JSON: first *)
(* {"dict": [...]}, then one record per executed history:                  *)
(*   file  [runs, n, tail];  ops  the calls;  obs  what each one returned  *)
(* A behaviour of this module replays one history: every call is a step of *)
(* the specification, and what the real code returned must be what the     *)
(* specification allows in that state.                                     *)
(***************************************************************************)
EXTENDS Report, Json, IOUtils

\* the input is read once, by Init, and kept in TLC registers
Cases == TLCGet(1)
TraceRecord(d) == TLCGet(2)[d]
\* records that look like cards are parsed once and remembered
Ahead(in) == Force([ i \in 1..Len(in.dict) |-> IF in.hint[i] = 1 THEN <<ParseCard(in.dict[i])>> ELSE <<>> ])
TraceCard(d) == LET p == TLCGet(3)[d] IN IF p = <<>> THEN ParseCard(TraceRecord(d)) ELSE p[1]
TraceSeed(i) == TLCGet(4)[i + 1]
Load == LET in == ndJsonDeserialize(IOEnv.CASES) IN
        /\ TLCSet(1, Tail(in)) /\ TLCSet(2, in[1].dict) /\ TLCSet(3, Ahead(in[1])) /\ TLCSet(4, Seeds)

VARIABLES hist, step, walk, good      \* (names not used as parameters in the imported modules)


File == Cases[hist].file
Op == Cases[hist].ops[step]
Obs == Cases[hist].obs[step]
Dead(o) == o.t \in {"panic", "hang", "crash"}

Touch(y) == [y EXCEPT !.fresh = FALSE]

\* may this call's result be predicted: first access to the data of this HDU
Known == walk.phase = "in" /\ walk.fresh

Expect ==
  CASE walk.phase = "closed" -> [w |-> walk, ok |-> Obs.t = "closed"]
    [] Op.op = "next" ->
         LET r == Next1(File, walk) IN [w |-> r.w, ok |-> HduMatches(r.obs, Obs)]
    [] Op.op = "pos" ->
         [w |-> walk, ok |-> Obs.t = "pos" /\ Obs.off = BMulSmall(BFrom(walk.du), 80)]
    [] Op.op = "img" ->
         [w |-> Touch(walk),
          ok |-> IF walk.phase = "in" /\ walk.geo.kind # "image" THEN Obs.t = "na"
                 ELSE ~Known \/ (Obs.t = "img" /\ Obs.ty = PixType(walk.geo.bitpix) /\ Len(Obs.r) = Len(Op.sub)
                                 /\ ImgSession(File, walk, Op.sub, Obs.r, ImgInit, 1))]
    [] Op.op = "imgraw" ->
         [w |-> walk,
          ok |-> IF walk.phase = "in" /\ walk.geo.kind # "image" THEN Obs.t = "na"
                 ELSE Obs.t = "na" \/ walk.phase # "in" \/ (Obs.t = "raw" /\ Obs.b = RawUnit(File, walk))]
    [] Op.op = "asc" ->
         [w |-> Touch(walk),
          ok |-> IF walk.phase = "in" /\ walk.geo.kind # "ascii" THEN Obs.t = "na"
                 ELSE ~Known \/ (Obs.t = "bytes"
                                 /\ Obs.b = FirstBytes(File, walk, Op.n, PresentBytes(File, walk)))]
    [] Op.op = "read" ->
         [w |-> Touch(walk),
          ok |-> ~Known \/ (Obs.t = "bytes"
                            /\ Obs.b = FirstBytes(File, walk, Op.n, AvailBytes(File, walk.du)))]
    [] Op.op = "hdr" ->
         [w |-> walk,
          ok |-> IF walk.du = 0 THEN Obs.t = "na"
                 ELSE ViewMatches(CardsIn(File, walk.hd, FindEnd(File, walk.hd)), Op.q, Obs)]
    [] Op.op = "clone" -> [w |-> walk, ok |-> Obs.t \in {"cloned", "na"}]
    [] Op.op = "tab" ->
         [w |-> Touch(walk),
          ok |-> IF walk.phase = "in" /\ walk.geo.kind # "bintable" THEN Obs.t = "na"
                 ELSE ~Known \/ (Obs.t = "tab" /\ BinSession(File, walk, Op.sub, Obs.r))]
    [] Op.op = "hook" -> [w |-> walk, ok |-> HookMatches(File, Obs)]
    [] Op.op = "cli" -> [w |-> walk, ok |-> ReportMatches(File, Op.absent, Obs)]
    \* opening a gzip file: one that is damaged is refused, or the damage does not show,
    \* or it does not look like gzip any more and its first HDU cannot be read
    [] Op.op = "open" ->
         [w |-> IF Obs.t = "openerr" THEN [walk EXCEPT !.phase = "closed"] ELSE walk,
          ok |-> Obs.t = "open" \/ (Obs.t = "openerr" /\ ~Op.intact)]
    [] Op.op = "gznext" ->
         LET r == Next1(File, walk) IN
         IF Obs.t = "err" /\ walk.phase = "start" THEN [w |-> Fail(walk).w, ok |-> TRUE]
         ELSE [w |-> r.w, ok |-> (Op.mayread \/ walk.phase # "start") /\ HduMatches(r.obs, Obs)]
    [] Op.op = "anext" ->
         LET r == Next1(File, walk) IN [w |-> r.w, ok |-> AHduMatches(r.obs, Obs)]
    [] Op.op = "avals" ->
         [w |-> Touch(walk),
          ok |-> IF walk.du = 0 THEN Obs.t = "na" ELSE ~Known \/ AValsMatch(File, walk, Op.skip, Op.n, Obs)]
    [] Op.op = "meta" -> [w |-> walk, ok |-> MetaMatches(File, walk, Op.names, Obs)]

Init == /\ Load
        /\ hist \in 1..Len(Cases)
        /\ step = 1 /\ walk = WInit /\ good = TRUE

Report(e) == PrintT("MISMATCH " \o ToJson([id |-> Cases[hist].id, step |-> step, w |-> [phase |-> walk.phase, du |-> walk.du]]))

\* a history shorter than its calls ended in a panic, a hang or a crash
Next ==
  /\ good
  /\ step <= Len(Cases[hist].ops)
  /\ hist' = hist /\ step' = step + 1
  /\ IF step > Len(Cases[hist].obs) \/ Dead(Obs)
     THEN walk' = walk /\ good' = FALSE /\ Report(0)
     ELSE LET e == Expect IN
          walk' = e.w /\ good' = e.ok /\ (e.ok \/ Report(0))

Conforms == good
Spec == Init /\ [][Next]_<<hist, step, walk, good>>
=============================================================================
