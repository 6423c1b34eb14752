------------------------------- MODULE WavGen -------------------------------
(***************************************************************************)
(* Scripts for wav codecs: for every transition of the design model the    *)
(* shortest history that ends with it.                                     *)
(***************************************************************************)
EXTENDS WavDesign

CONSTANT Ops
VARIABLE h

GInit == Init /\ h = ""
Op(name, s) == name \in Ops /\ h' = h \o " " \o s

GNext == \/ \E n \in 0..MaxLen : Encode(n) /\ Op("enc", "e" \o ToString(n))
         \/ \E n \in 0..(MaxLen + 1) : Decode(n) /\ Op("dec", "d" \o ToString(n))
         \/ Seek(0, 0) /\ Op("start", "s0,0")
         \/ \E w \in 0..2, t \in (-3)..3 :
              /\ (w = 0 => t >= 0)
              /\ Seek(w, t) /\ Op("seek", "s" \o ToString(w) \o "," \o ToString(t))
         \/ \E cut \in 0..(2 * Ch) : Reload(cut) /\ Op("load", "l" \o ToString(cut))
GSpec == GInit /\ [][GNext]_<<vars, h>>

(* which samples are where doesn't matter, only which of them are of the last call *)
Seen == <<Len(pcm), cur, new>>
Emit == PrintT("S|" \o ToString(Ch) \o h')
=============================================================================
