------------------------------ MODULE CliTool ------------------------------
(***************************************************************************)
(* The command line tool (C17), as a function on the files of a machine.   *)
(*                                                                         *)
(* An input is a file that isn't there, or one with a stem, an extension   *)
(* and contents; contents are "wav" or "adhoc" (valid files of these       *)
(* formats) or "bad".  One run converts all valid inputs.                  *)
(***************************************************************************)
EXTENDS Float32, TLC

(* The audio of a file is a sequence of samples, as IEEE bits, with rate and channels *)
Lossless(x) == [i \in DOMAIN x |-> NormBits(QuantizeBits(x[i]))]
Fix(b) ==
  LET f == FFromBits(b)
      s == f[2] + 20
  IN IF f[1] = 0 \/ s < -24 THEN 0
     ELSE IF s >= 0 THEN f[1] * P2[s] ELSE Sgn(f[1]) * (Abs(f[1]) \div P2[-s])
Within(lvl, a, b) ==
  /\ FIsFinite(b) /\ FExpField(b) < 130
  \* 1049 = 0.001 * 2^20; an input of -32768 is clamped to -1
  /\ Abs(Fix(a) - Fix(b)) <= (P2[lvl] * 32002) \div 1000 + 1049 + 3 + 33

Whole(x, ch) == SubSeq(x, 1, (Len(x) \div ch) * ch)

(* the level that is asked for with -c; "" for none *)
Level(c) == IF c < 0 THEN 5 ELSE IF c > 10 THEN 10 ELSE c

Convertible(i) == (i.ext = "wav" /\ i.what = "wav") \/ (i.ext = "adhoc" /\ i.what = "adhoc")
OutName(i) == i.stem \o (IF i.ext = "wav" THEN ".adhoc" ELSE ".wav")

(* `out` is what input i has to become, at level lvl *)
Converted(i, out, lvl) ==
  /\ out.name = OutName(i)
  /\ out.rate = i.rate /\ out.ch = i.ch
  \* nothing of an older file is left behind the new contents
  /\ out.tight = 1
  /\ IF i.ext = "wav"
     THEN /\ out.what = "adhoc"
          /\ out.lvl = lvl
          /\ \E x \in {Whole(i.audio, i.ch)} :
               /\ Len(out.audio) = Len(x)
               /\ IF lvl = 0 THEN out.audio = Lossless(x)
                  ELSE TRUE = \A k \in DOMAIN x : Within(lvl, x[k], out.audio[k])
     ELSE /\ out.what = "wav"
          /\ out.audio = Lossless(i.audio)
=============================================================================
