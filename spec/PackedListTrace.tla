--------------------------- MODULE PackedListTrace ---------------------------
EXTENDS TraceBase, PackedList

TInit == TBInit /\ Init

Shows == /\ Ev.len = Len(x')
         /\ Ev.it = x'
         /\ Ev.ge = x'
         /\ Ev.cap >= Len(x')
         /\ TRUE = \A i \in DOMAIN Ev.far : Ev.far[i] = 0     \* there's nothing behind the end

TNext ==
  \/ Is("make") /\ UNCHANGED x
  \/ Is("push") /\ Push(Ev.v) /\ Shows
  \/ Is("pushn") /\ PushAll(Ev.v) /\ Shows
  \/ Is("set") /\ Set(Ev.i, Ev.v) /\ Shows
  \/ Is("clear") /\ Clear /\ Shows
  \/ Is("need") /\ Ev.ret = Words(Ev.n) /\ UNCHANGED x /\ Shows
  \/ Is("trunc") /\ Truncate(Ev.n) /\ Shows
  \/ Finished /\ UNCHANGED <<sc, l, x>>

TSpec == TInit /\ [][TNext]_<<sc, l, x>>
=============================================================================
