--------------------------- MODULE RingBufferTrace ---------------------------
EXTENDS TraceBase, RingBuffer

TInit == TBInit /\ Init(Cfg[1])

Shows == /\ Ev.ret = ret'
         /\ Ev.vs = q'
         /\ Ev.len = Len(q')
         /\ (Ev.full = 1) <=> (Len(q') >= cap)
         /\ (Ev.empty = 1) <=> (q' = <<>>)

(* a[1] * 65536 + a[2] times, a value is put in at one end and one is taken out of the other;
   the values are the low 16 bits of a counter from 0.  A full buffer takes none, and loses one. *)
Cycle(a, back) ==
  LET m == Len(q)
      cut == IF Full /\ (a[1] > 0 \/ a[2] > 0) THEN 1 ELSE 0      \* the first value wasn't taken
      keep == m - cut
      taken == IF a[1] > 0 THEN 65536 + a[2] - cut ELSE a[2] - cut    \* as good as all of them
      new == [i \in 1..(IF taken < keep THEN taken ELSE keep) |-> (a[2] + 65536 - i) % 65536]  \* the last one first
      old == keep - Len(new)
      rest == IF back THEN SubSeq(q, 1, old) ELSE SubSeq(q, m - old + 1, m)
      rev == [i \in DOMAIN new |-> new[Len(new) + 1 - i]]
  IN /\ q' = IF back THEN new \o rest ELSE rest \o rev
     /\ ret' = <<>> /\ cap' = cap

TNext ==
  \/ Is("make") /\ UNCHANGED <<q, cap, ret>>
  \/ Is("pushf") /\ PushFront(Ev.a[1]) /\ Shows
  \/ Is("pushr") /\ PushRear(Ev.a[1]) /\ Shows
  \/ Is("popf") /\ PopFront /\ Shows
  \/ Is("popr") /\ PopRear /\ Shows
  \/ Is("many") /\ Cycle(Ev.a, FALSE) /\ Shows
  \/ Is("manyb") /\ Cycle(Ev.a, TRUE) /\ Shows
  \/ Is("clear") /\ Clear /\ Shows
  \/ Finished /\ UNCHANGED <<sc, l, q, cap, ret>>

TSpec == TInit /\ [][TNext]_<<sc, l, q, cap, ret>>
=============================================================================
