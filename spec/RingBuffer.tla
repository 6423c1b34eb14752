----------------------------- MODULE RingBuffer -----------------------------
(***************************************************************************)
(* C23.  A bounded double-ended queue.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES q,     \* contents, front first
          cap,   \* capacity
          ret    \* result of the last operation

Init(c) == q = <<>> /\ cap = c /\ ret = <<>>

Full == Len(q) >= cap
PushFront(v) == q' = (IF Full THEN q ELSE <<v>> \o q) /\ ret' = <<>> /\ cap' = cap
PushRear(v) == q' = (IF Full THEN q ELSE Append(q, v)) /\ ret' = <<>> /\ cap' = cap
PopFront == /\ q' = IF q = <<>> THEN q ELSE Tail(q)
            /\ ret' = IF q = <<>> THEN <<>> ELSE <<q[1]>>
            /\ cap' = cap
PopRear == /\ q' = IF q = <<>> THEN q ELSE SubSeq(q, 1, Len(q) - 1)
           /\ ret' = IF q = <<>> THEN <<>> ELSE <<q[Len(q)]>>
           /\ cap' = cap
Clear == q' = <<>> /\ ret' = <<>> /\ cap' = cap

Next(VS) == \/ \E v \in VS : PushFront(v) \/ PushRear(v)
            \/ PopFront \/ PopRear \/ Clear

Spec(VS, c) == Init(c) /\ [][Next(VS)]_<<q, cap, ret>>

Bounded == Len(q) <= cap
=============================================================================
