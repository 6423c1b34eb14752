--------------------------- MODULE TranscodeTrace ---------------------------
(***************************************************************************)
(* C30.  Recorded conversions of whole streams:                            *)
(*   start  a stream with samples x (IEEE bits), or of 16-bit codes (`raw`)*)
(*   conv   it was read with a buffer and encoded into a new stream, for   *)
(*          which `ret` samples were accepted and which gives back `out`   *)
(* The stream is an array of IEEE bits; `passes` counts how often the      *)
(* samples have been made 16 bits: from the second time on they're settled.*)
(***************************************************************************)
EXTENDS TraceBase, AdhocStream

VARIABLES cur, rate, ch, passes

allvars == <<sc, l, strm, cod, files, cur, rate, ch, passes>>

TInit == TBInit /\ Init /\ cur = <<>> /\ rate = <<>> /\ ch = 0 /\ passes = 0

Start(x, n) == /\ cur' = x
            /\ rate' = Ev.rate
            /\ ch' = Ev.ch
            /\ passes' = n

(* a lossy conversion may return a bit more than 1; another one may clip that, or not *)
Clipped(b) == IF FExpField(b) < 127 THEN b ELSE NormBits(FQuantize(FFromBits(b)))
Lossy(lvl, a, b) == Within(lvl, a, b) \/ Within(lvl, Clipped(a), b)

Conv ==
  /\ Ev.ret = Len(cur)
  /\ Len(Ev.out) = Len(cur)
  /\ Ev.rate = rate /\ Ev.ch = ch
  /\ IF Ev.lvl = 0
     THEN /\ TRUE = \A i \in DOMAIN cur : Ev.out[i] = NormBits(QuantizeBits(cur[i]))
          /\ passes > 1 => Ev.out = cur
     ELSE TRUE = \A i \in DOMAIN cur : Lossy(Ev.lvl, cur[i], Ev.out[i])
  /\ cur' = Ev.out
  /\ passes' = IF Ev.lvl = 0 THEN Min2(passes + 1, 2) ELSE 0
  /\ UNCHANGED <<rate, ch>>

TNext ==
  /\ UNCHANGED <<strm, cod, files>>
  /\ \/ Is("start") /\ Start(Ev.x, 0)
     \/ Is("raw") /\ Start([i \in DOMAIN Ev.x |-> NormBits(Ev.x[i])], 1)
     \/ Is("conv") /\ Conv
     \/ Finished /\ UNCHANGED <<sc, l, cur, rate, ch, passes>>

View == <<sc, l>>

TSpec == TInit /\ [][TNext]_allvars
=============================================================================
