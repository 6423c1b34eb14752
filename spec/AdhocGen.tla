------------------------------ MODULE AdhocGen ------------------------------
(***************************************************************************)
(* Scripts for adhoc codecs: for every transition of the design model (as  *)
(* far as its actions are in Ops), the shortest history that ends with it. *)
(* The numbers are frames and, behind them, samples of an incomplete one.  *)
(***************************************************************************)
EXTENDS AdhocDesign

CONSTANT Ops
VARIABLE h

GInit == Init /\ h = ""
Op(name, s) == name \in Ops /\ h' = h \o " " \o s
Num(n, x) == ToString(n) \o "+" \o ToString(x)
Extras == IF "ragged" \in Ops THEN 0..(Ch - 1) ELSE {0}

GNext ==
  \/ \E n \in Sizes, x \in Extras : Encode(n) /\ Op("enc", "e" \o Num(n, x))
  \/ \E x \in Extras : Nothing /\ Op("none", "e" \o Num(0, x))
  \/ \E n \in 0..MaxFrames, x \in Extras : Decode(n) /\ Op("dec", "d" \o Num(n, x))
  \/ Rewind /\ Op("init", "i")
  \/ \E t \in 0..(Frames + 1) : Seek(t) /\ Op("seek", "s" \o ToString(t))
  \/ Count /\ Op("cnt", "c")
  \/ Save /\ Op("save", "w")
  \/ Load /\ Op("save", "l")
GSpec == GInit /\ [][GNext]_<<vars, h>>

Seen == vars
Emit == PrintT("S|" \o ToString(Ch) \o h')
=============================================================================
