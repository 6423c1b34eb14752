----------------------------- MODULE WavDesign -----------------------------
(***************************************************************************)
(* The design of the wav codec: a list of bytes, two for a sample (a file  *)
(* may end inside of a sample or of a frame), and a cursor that counts     *)
(* samples.  arr and at are the array and the cursor that a user sees      *)
(* (WavStream); `good` says that every call gave what those allow.         *)
(* The rate is 1000, so that a ms is a frame.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Ch, MaxLen, MaxNew

VARIABLES pcm, cur,    \* the codec
          arr, at,     \* the user's view
          new,         \* number of samples made so far
          good

vars == <<pcm, cur, arr, at, new, good>>

Init == pcm = <<>> /\ cur = 0 /\ arr = <<>> /\ at = 0 /\ new = 0 /\ good = TRUE

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Whole(n) == (n \div Ch) * Ch
Bytes(x) == <<<<x, 0>>, <<x, 1>>>>
NumSamples == Len(pcm) \div 2

RECURSIVE Written(_, _, _)
(* samples x from position c: bytes that exist are replaced, others are appended *)
Written(b, c, x) ==
  IF x = <<>> THEN b
  ELSE LET y == Bytes(x[1])
           b1 == IF 2 * c + 1 < Len(b) THEN [b EXCEPT ![2 * c + 1] = y[1], ![2 * c + 2] = y[2]]
                 ELSE b \o y
       IN Written(b1, c + 1, Tail(x))

Fits(n) == Max2(Len(arr), at + n) <= MaxLen /\ new + n <= MaxNew
Encode(n) ==
  LET m == Whole(n)
      x == [i \in 1..m |-> new + i]
  IN /\ Fits(m)
     /\ pcm' = Written(pcm, cur, x) /\ cur' = cur + m
     /\ arr' = SubSeq(arr, 1, at) \o x \o SubSeq(arr, at + m + 1, Len(arr)) /\ at' = at + m
     /\ new' = new + m
     /\ UNCHANGED good

Sample(i) == IF pcm[2 * i + 1][1] = pcm[2 * i + 2][1] /\ pcm[2 * i + 1][2] = 0 /\ pcm[2 * i + 2][2] = 1
             THEN pcm[2 * i + 1][1] ELSE -1
Decode(n) ==
  LET m == Max2(0, Min2(Whole(n), NumSamples - cur))
      want == Min2(Whole(n), Len(arr) - at)
  IN /\ cur' = cur + m /\ at' = at + want
     /\ good' = (good /\ m = want /\ \A i \in 1..m : Sample(cur + i - 1) = arr[at + i])
     /\ UNCHANGED <<pcm, arr, new>>

(* in the order and with the roundings of the code *)
Seek(whence, t) ==
  LET n == Whole(NumSamples)
      from == CASE whence = 0 -> 0 [] whence = 1 -> Whole(cur) [] OTHER -> n
      frames == Len(arr) \div Ch
      frame == CASE whence = 0 -> 0 [] whence = 1 -> at \div Ch [] OTHER -> frames
  IN /\ cur' = Max2(0, Min2(from + t * Ch, n))
     /\ at' = Ch * Max2(0, Min2(frame + t, frames))
     /\ UNCHANGED <<pcm, arr, new, good>>

(* the file of the codec is loaded, with the last `cut` bytes missing; half a sample is dropped *)
Reload(cut) ==
  /\ cut <= Len(pcm)
  /\ LET b == SubSeq(pcm, 1, Len(pcm) - cut)
     IN pcm' = SubSeq(b, 1, 2 * (Len(b) \div 2))
  /\ cur' = 0
  /\ arr' = SubSeq(arr, 1, (2 * Len(arr) - cut) \div 2) /\ at' = 0
  /\ UNCHANGED <<new, good>>

Next == \/ \E n \in 0..MaxLen : Encode(n)
        \/ \E n \in 0..(MaxLen + 1) : Decode(n)
        \/ \E w \in 0..2, t \in (-3)..3 : (w = 0 => t >= 0) /\ Seek(w, t)
        \/ \E cut \in 0..(2 * Ch) : Reload(cut)
Spec == Init /\ [][Next]_vars

Good == good
View == /\ cur = at
        /\ pcm = [i \in 1..(2 * Len(arr)) |-> <<arr[(i + 1) \div 2], (i + 1) % 2>>]
=============================================================================
