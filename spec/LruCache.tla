------------------------------ MODULE LruCache ------------------------------
(***************************************************************************)
(* C22.  A cache of bounded size that gives up the entry least recently    *)
(* put or fetched with priority.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES c,     \* <<key, value>>, most recent first
          cap,   \* capacity, at least 1
          ret

Keys == {c[i][1] : i \in DOMAIN c}
Pos(k) == CHOOSE i \in DOMAIN c : c[i][1] = k
Value(k) == c[Pos(k)][2]
Without(k) == SubSeq(c, 1, Pos(k) - 1) \o SubSeq(c, Pos(k) + 1, Len(c))

Init(n) == c = <<>> /\ cap = n /\ ret = <<>>

Put(k, v) ==
  /\ c' = <<<<k, v>>>> \o (IF k \in Keys THEN Without(k)
                           ELSE IF Len(c) >= cap THEN SubSeq(c, 1, cap - 1)
                           ELSE c)
  /\ ret' = <<>> /\ cap' = cap
Get(k) ==
  /\ c' = IF k \in Keys THEN <<<<k, Value(k)>>>> \o Without(k) ELSE c
  /\ ret' = IF k \in Keys THEN <<Value(k)>> ELSE <<>>
  /\ cap' = cap
(* the value is changed through the reference *)
GetMut(k, v) ==
  /\ c' = IF k \in Keys THEN <<<<k, v>>>> \o Without(k) ELSE c
  /\ ret' = IF k \in Keys THEN <<Value(k)>> ELSE <<>>
  /\ cap' = cap
Lookup(k) ==
  /\ ret' = IF k \in Keys THEN <<Value(k)>> ELSE <<>>
  /\ UNCHANGED <<c, cap>>
Remove(k) ==
  /\ c' = IF k \in Keys THEN Without(k) ELSE c
  /\ ret' = IF k \in Keys THEN <<Value(k)>> ELSE <<>>
  /\ cap' = cap

Next(KS, VS) ==
  \E k \in KS : \/ Get(k) \/ Lookup(k) \/ Remove(k)
                \/ \E v \in VS : Put(k, v) \/ GetMut(k, v)

Bounded == Len(c) <= cap /\ \A i, j \in DOMAIN c : c[i][1] = c[j][1] => i = j
=============================================================================
