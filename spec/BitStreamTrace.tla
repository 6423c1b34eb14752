--------------------------- MODULE BitStreamTrace ---------------------------
EXTENDS TraceBase, BitStream

TInit == TBInit /\ Init

Shows == Ev.cur = cur' /\ Ev.len = cur' /\ Ev.cap = cap'

TNext ==
  \/ Is("make") /\ UNCHANGED <<bits, cur, cap, ret>>
  \/ (Is("w") \/ Is("wt") \/ Is("w1")) /\ Write(Ev.v) /\ Shows
  \/ (Is("r") \/ Is("rt")) /\ Read(Ev.n) /\ Ev.ret = ret' /\ Shows
  \/ Is("r1") /\ Read(1) /\ Ev.ret = ret' /\ Shows
  \/ (Is("p") \/ Is("pt")) /\ Peek(Ev.n) /\ Ev.ret = ret' /\ Shows
  \/ Is("seek") /\ Seek(Ev.n) /\ Shows
  \/ Is("off") /\ Move(Ev.n) /\ Shows
  \/ Is("start") /\ Seek(0) /\ Shows
  \/ Is("zero") /\ Zero /\ Shows
  \/ Finished /\ UNCHANGED <<sc, l, bits, cur, cap, ret>>

TSpec == TInit /\ [][TNext]_<<sc, l, bits, cur, cap, ret>>
=============================================================================
