--------------------------- MODULE RingBufferImpl ---------------------------
(***************************************************************************)
(* The ring buffer as implemented (indices modulo a power of two, front at *)
(* the first element, rear behind the last) refines RingBuffer.tla (C23).  *)
(* The capacity is chosen initially.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Caps, Values

VARIABLES backing, front, rear, len, cap, ret
vars == <<backing, front, rear, len, cap, ret>>

Init == /\ cap \in Caps
        /\ backing = [i \in 0..(cap - 1) |-> 0]
        /\ front = 0 /\ rear = 0 /\ len = 0
        /\ ret = <<>>

Full == len >= cap
Mask(n) == n % cap

PushFront(v) ==
  /\ IF Full THEN UNCHANGED <<backing, front, len>>
     ELSE /\ front' = Mask(front + cap - 1)
          /\ backing' = [backing EXCEPT ![front'] = v]
          /\ len' = len + 1
  /\ ret' = <<>> /\ UNCHANGED <<rear, cap>>
PushRear(v) ==
  /\ IF Full THEN UNCHANGED <<backing, rear, len>>
     ELSE /\ backing' = [backing EXCEPT ![rear] = v]
          /\ rear' = Mask(rear + 1)
          /\ len' = len + 1
  /\ ret' = <<>> /\ UNCHANGED <<front, cap>>
PopFront ==
  /\ IF len = 0 THEN UNCHANGED <<front, len>> /\ ret' = <<>>
     ELSE front' = Mask(front + 1) /\ len' = len - 1 /\ ret' = <<backing[front]>>
  /\ UNCHANGED <<backing, rear, cap>>
PopRear ==
  /\ IF len = 0 THEN UNCHANGED <<rear, len>> /\ ret' = <<>>
     ELSE rear' = Mask(rear + cap - 1) /\ len' = len - 1 /\ ret' = <<backing[rear']>>
  /\ UNCHANGED <<backing, front, cap>>
Clear == len' = 0 /\ front' = 0 /\ rear' = 0 /\ ret' = <<>> /\ UNCHANGED <<backing, cap>>

Next == \/ \E v \in Values : PushFront(v) \/ PushRear(v)
        \/ PopFront \/ PopRear \/ Clear
Spec == Init /\ [][Next]_vars

Abs == INSTANCE RingBuffer WITH q <- [i \in 1..len |-> backing[(front + i - 1) % cap]]
Refines == Abs!Init(cap) /\ [][Abs!Next(Values)]_<<backing, front, len, cap, ret>>

Inv == len <= cap /\ rear = Mask(front + len)
=============================================================================
