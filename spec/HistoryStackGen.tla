--------------------------- MODULE HistoryStackGen ---------------------------
(* One script per transition of the implementation model, and all scripts of
   a given length. *)
EXTENDS HistoryStackImpl
CONSTANT Depth
VARIABLES h, d   \* script, its length
Vw == <<cursor, len>>
v0 == TLCGet("level")
GInit == Init /\ h = "" /\ d = 0
GNext == /\ d < Depth /\ d' = d + 1
         /\ \/ Push(v0) /\ h' = h \o ";push " \o ToString(v0)
            \/ Pop /\ h' = h \o ";pop"
GSpec == GInit /\ [][GNext]_<<vars, h, d>>
Emit == PrintT("S|" \o h' \o ";push 91;push 92;pop;push 93;pop;pop;pop")
EmitLeaf == d' = Depth => PrintT("S|" \o h')
=============================================================================
