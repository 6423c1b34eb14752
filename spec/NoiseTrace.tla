----------------------------- MODULE NoiseTrace -----------------------------
(***************************************************************************)
(* C27.  Values of the noise generator, in units of 2^-20 (values that     *)
(* aren't whole units are rounded away from 0, so that the bounds remain   *)
(* the same ones).                                                         *)
(*   val  a value of the sequence number Ev.g at index Ev.i, of Ev.dist    *)
(*   sum  Ev.n consecutive values: their smallest, largest and sum         *)
(*        (in units of 2^-20, as <<high, low>> with 10 low bits)           *)
(* Generators with the same Ev.seed give the same sequence.                *)
(***************************************************************************)
EXTENDS TraceBase, FiniteSets

VARIABLES seq,        \* <<seed as text, distribution pattern, index>> -> value, as far as it's known
          count, hi, lo

nvars == <<seq, count, hi, lo>>
allvars == <<sc, l, seq, count, hi, lo>>

One == 1048576

TInit == TBInit /\ seq = <<>> /\ count = 0 /\ hi = 0 /\ lo = 0

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

InRange(dist, v) ==
  IF dist = "triangle" THEN v > -One /\ v < One
  ELSE v >= -One /\ v < One

(* the values from a generator whose seed is s; Ev.hist tells what was drawn from it before *)
Val == /\ Is("vals")
       /\ TRUE = \A i \in DOMAIN Ev.v : InRange(Ev.dist, Ev.v[i])
       /\ LET key == <<Ev.seed, Ev.hist, Ev.dist>>
              old == IF key \in DOMAIN seq THEN seq[key] ELSE <<>>
              n == IF Len(old) < Len(Ev.v) THEN Len(old) ELSE Len(Ev.v)
          IN /\ SubSeq(old, 1, n) = SubSeq(Ev.v, 1, n)
             /\ seq' = IF Len(Ev.v) > Len(old) THEN Put(seq, key, Ev.v) ELSE seq
       /\ UNCHANGED <<count, hi, lo>>

Sum == /\ Is("sum")
       /\ InRange("triangle", Ev.min) /\ InRange("triangle", Ev.max)
       /\ count' = count + Ev.n
       \* the total is hi * 2^10 + lo
       /\ hi' = hi + Ev.hi + (lo + Ev.lo) \div 1024
       /\ lo' = (lo + Ev.lo) % 1024
       /\ UNCHANGED seq

(* over a whole period the mean is within 0.01 of zero: |total| <= count * 2^20 / 100 *)
Balanced == /\ Is("period")
            /\ hi <= (count \div 100) * 1024 + 1024
            /\ -hi <= (count \div 100) * 1024 + 1024
            /\ count' = 0 /\ hi' = 0 /\ lo' = 0 /\ UNCHANGED seq

(* a table of the first values: a star for every whole part of 1/300 of them, in each of 20 intervals *)
Table == /\ Is("table")
         /\ TRUE = \A i \in DOMAIN Ev.v : InRange(Ev.dist, Ev.v[i])
         /\ \E n \in {Len(Ev.v)} :
            \E bin \in {[i \in 1..n |-> ((Ev.v[i] + One) * 10) \div One] \o <<>>} :
              Ev.stars = [b \in 1..20 |-> (Len(SelectSeq(bin, LAMBDA x : x = b - 1)) * 300) \div n]
         /\ UNCHANGED nvars

TNext == Table \/ Val \/ Sum \/ Balanced \/ (Finished /\ UNCHANGED allvars)

View == <<sc, l>>

TSpec == TInit /\ [][TNext]_allvars
=============================================================================
