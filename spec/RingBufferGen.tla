---------------------------- MODULE RingBufferGen ----------------------------
(* One script per transition of the implementation model, contents aside. *)
EXTENDS RingBufferImpl

VARIABLE h
Vw == <<front, rear, len, cap>>
v0 == TLCGet("level")
Say(x) == h' = h \o ";" \o x
GInit == Init /\ h = ToString(cap)
GNext == \/ PushFront(v0) /\ Say("pushf " \o ToString(v0))
         \/ PushRear(v0) /\ Say("pushr " \o ToString(v0))
         \/ PopFront /\ Say("popf")
         \/ PopRear /\ Say("popr")
         \/ Clear /\ Say("clear")
GSpec == GInit /\ [][GNext]_<<vars, h>>
Probe == ";pushf 91;pushr 92;popf;popf;popf;popr;pushr 93;pushf 94;popr;popr;popr"
Emit == PrintT("S|" \o h' \o Probe)
=============================================================================
