-------------------------- MODULE HistoryStackTrace --------------------------
EXTENDS TraceBase, HistoryStack

TInit == TBInit /\ Init

Shows == /\ Ev.len = Len(st')
         /\ (Ev.empty = 1) <=> (st' = <<>>)
         /\ Ev.prev = st'
         /\ TRUE = \A i \in DOMAIN Ev.back : Ev.back[i] = st'[Len(st')]   \* no further than the oldest

(* a[1] * 65536 + a[2] values, the low 16 bits of a counter from 0: the last four at most are remembered *)
PushMany(a) ==
  /\ st' = IF a[1] = 0 /\ a[2] < 4
           THEN LET x == [i \in 1..a[2] |-> a[2] - i] \o st
                IN SubSeq(x, 1, IF Len(x) < 4 THEN Len(x) ELSE 4)
           ELSE <<(a[2] + 65535) % 65536, (a[2] + 65534) % 65536, (a[2] + 65533) % 65536, (a[2] + 65532) % 65536>>
  /\ ret' = <<>>

TNext ==
  \/ Is("make") /\ UNCHANGED <<st, ret>>
  \/ Is("push") /\ Push(Ev.a[1]) /\ Shows
  \/ Is("many") /\ PushMany(Ev.a) /\ Shows
  \/ Is("pop") /\ Pop /\ Shows /\ (ret' # <<>> => Ev.ret = ret')
  \/ Is("clone") /\ Keep /\ Shows
  \/ Finished /\ UNCHANGED <<sc, l, st, ret>>

TSpec == TInit /\ [][TNext]_<<sc, l, st, ret>>
=============================================================================
