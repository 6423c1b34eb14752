----------------------------- MODULE WavStream -----------------------------
(***************************************************************************)
(* Wav codecs as a user sees them (C08, C12 to C15).                       *)
(*                                                                         *)
(* wav[w] is an array of 16-bit codes with a cursor, for some sample rate  *)
(* (as <<high, low>> 16 bits) and some number of channels.  A code that    *)
(* comes from an 8-bit file is only known to be near a value until it is   *)
(* seen; Near + v stands for the codes that are near the 8-bit value v.    *)
(***************************************************************************)
EXTENDS Float32, WavFile, TLC

VARIABLE wav

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Whole(n, ch) == (n \div ch) * ch

Init == wav = <<>>

New(w, rate, ch) == wav' = Put(wav, w, [rate |-> rate, ch |-> ch, data |-> <<>>, pos |-> 0])

(* the samples x (IEEE bits) replace the ones at the cursor, and go on behind the end *)
Encode(w, x, ret) ==
  LET k == wav[w]
      n == Whole(Len(x), k.ch)
      codes == [i \in 1..n |-> IF FIsNan(x[i]) THEN Anything ELSE QuantizeBits(x[i])]
      rest == SubSeq(k.data, k.pos + n + 1, Len(k.data))
  IN /\ ret = n
     /\ wav' = [wav EXCEPT ![w] = [k EXCEPT !.data = SubSeq(@, 1, k.pos) \o codes \o rest, !.pos = @ + n]]

(* the 16-bit code of a decoded sample: what 16 bits times 1/32767 gives it, if any *)
CodeOf(bits) ==
  LET x == FMul32767(FFromBits(bits))
      c == FTrunc(FAdd(x, IF x[1] < 0 THEN FRound(-1, -1) ELSE FRound(1, -1)))
  IN IF FExpField(bits) < 100 THEN 0 ELSE IF FExpField(bits) > 128 THEN 100000 ELSE c

Fits(stored, bits) ==
  IF stored >= Near THEN LET c == CodeOf(bits) IN Stands(stored, c) /\ NormBits(c) = bits
  ELSE bits = NormBits(stored)

(* a buffer of cap samples which were all `fill` contains `out` afterwards *)
Decode(w, cap, fill, ret, out) ==
  LET k == wav[w]
      n == Min2(Whole(cap, k.ch), Len(k.data) - k.pos)
      seen == [i \in 1..n |-> IF k.data[k.pos + i] >= Near THEN CodeOf(out[i]) ELSE k.data[k.pos + i]]
  IN /\ ret = n
     /\ Len(out) = cap
     /\ TRUE = \A i \in (n + 1)..cap : out[i] = fill
     /\ TRUE = \A i \in 1..n : Fits(k.data[k.pos + i], out[i])
     /\ wav' = [wav EXCEPT ![w] = [k EXCEPT !.pos = @ + n,
                  !.data = SubSeq(@, 1, k.pos) \o seen \o SubSeq(@, k.pos + n + 1, Len(@))]]

(* hi * 1000 + lo ms in frames, at most `most`; for rates from 2^21, a ms is more frames than
   any stream has here (`most` is less than 2097) *)
Ahead(rate, hi, lo, most) ==
  LET f == rate[1] * 65536 + rate[2]
  IN IF hi = 0 /\ lo = 0 THEN 0
     ELSE IF rate[1] >= 32 THEN most
     ELSE IF f = 0 \/ hi <= most \div f THEN Min2(most, f * hi + (f * lo) \div 1000) ELSE most

Seek(w, whence, neg, hi, lo) ==
  LET k == wav[w]
      frames == Len(k.data) \div k.ch
      from == CASE whence = 0 -> 0 [] whence = 1 -> k.pos \div k.ch [] OTHER -> frames
      by == Ahead(k.rate, hi, lo, frames)
      to == IF neg = 1 THEN Max2(0, from - by) ELSE Min2(frames, from + by)
  IN wav' = [wav EXCEPT ![w].pos = to * k.ch]

Info(w, rate, ch) == rate = wav[w].rate /\ ch = wav[w].ch /\ UNCHANGED wav

Size(w, ret) == ret = 8 * (44 + 2 * Len(wav[w].data)) /\ UNCHANGED wav

Save(w, ok, b) ==
  LET k == wav[w]
  IN /\ ok = 1
     /\ IsCanonical(b, k.rate, k.ch, k.data)
     /\ wav' = [wav EXCEPT ![w].data =
                  IF \E i \in DOMAIN k.data : k.data[i] >= Near THEN [i \in DOMAIN k.data |-> I16At(b, 43 + 2 * i)]
                  ELSE @]

(* loading the file b *)
Load(w, ok, rate, ch, b) ==
  \E f \in {Parse(b)} :
    CASE f.kind = "read" -> /\ ok = 1 /\ rate = f.rate /\ ch = f.ch
                            /\ wav' = Put(wav, w, [rate |-> f.rate, ch |-> f.ch, data |-> f.data, pos |-> 0])
      [] f.kind = "refuse" -> ok = 0 /\ UNCHANGED wav
      [] OTHER -> IF ok = 1 THEN ch > 0 /\ wav' = Put(wav, w, [rate |-> rate, ch |-> ch, data |-> <<>>, pos |-> -1])
                  ELSE UNCHANGED wav

(* nothing is known of what was loaded, but it can be used *)
Unspecified(w) == wav[w].pos = -1
=============================================================================
