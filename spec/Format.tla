------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* The adhoc file format (C10, C11), as a decoder over the bytes of a      *)
(* file.  All numbers are little endian.                                   *)
(*                                                                         *)
(*   u32 level                                                             *)
(*   u64 n, n bytes: the frames' Rice exponents, 4 bits each, low first    *)
(*   u32 number of frames                                                  *)
(*   u64 n, n u64: one bit for each frame, set if it starts with raw codes *)
(*   u128 number of these bits                                             *)
(*   u64 n, n u16: the frames' sizes in samples                            *)
(*   u64 n, n u64: the frames' first bits                                  *)
(*   u64 n, n times 3 i16: the three codes before each frame               *)
(*   u32 (the writer's frame cursor)                                       *)
(*   u8 1, u32 sample rate, u32 channels                                   *)
(*   u64 n, n u128: the bits, lowest first                                 *)
(*   u128 (the writer's bit cursor), u128 number of bits                   *)
(*                                                                         *)
(* Frames are stored in blocks, one frame for each channel in turn, all of *)
(* the same size.  A channel's codes are the sample values times 32767.  A *)
(* channel starts with its first (at most 3) codes as raw 16 bits; if its  *)
(* first frame is shorter than 3, the next one starts in the same way.     *)
(* Every other code is the prediction (quadratic extrapolation of the last *)
(* three) plus a residual, modulo 2^16.  Residual r with exponent k: 1 bit *)
(* sign, |r| div 2^k ones, a zero, and |r| mod 2^k in k bits, low first.   *)
(***************************************************************************)
EXTENDS Float32, SequencesExt, TLC

B(b, o) == IF o >= 0 /\ o < Len(b) THEN b[o + 1] ELSE 0

Bad == -1    \* a number that can't be right

U16(b, o) == B(b, o) + 256 * B(b, o + 1)
I16(b, o) == Wrap16(U16(b, o))
U32(b, o) == IF B(b, o + 3) >= 128 THEN Bad ELSE U16(b, o) + 65536 * U16(b, o + 2)
Zeros(b, o, n) == \A i \in o..(o + n - 1) : B(b, i) = 0
U64(b, o) == IF Zeros(b, o + 4, 4) THEN U32(b, o) ELSE Bad
U128(b, o) == IF Zeros(b, o + 4, 12) THEN U32(b, o) ELSE Bad

(* where the parts of a file are; everything is checked against the length *)
Ok(b, o, n, w) == n >= 0 /\ o <= Len(b) /\ n <= (Len(b) - o) \div w

Layout(b) ==
  LET eN == U64(b, 4)                       \* exponents
      eAt == 12
      fO == eAt + eN                        \* frames
      frames == U32(b, fO)
      iN == U64(b, fO + 4)                  \* start bits
      iAt == fO + 12
      iC == iAt + 8 * iN
      sO == iC + 16                         \* sizes
      sN == U64(b, sO)
      sAt == sO + 8
      cO == sAt + 2 * sN                    \* first bits
      cN == U64(b, cO)
      cAt == cO + 8
      hO == cAt + 8 * cN                    \* history
      hN == U64(b, hO)
      hAt == hO + 8
      uO == hAt + 6 * hN                    \* frame cursor
      tO == uO + 4                          \* info
      dO == tO + 9                          \* bits
      dN == U64(b, dO)
      dAt == dO + 8
      end == dAt + 16 * dN + 32
      wellFormed ==
        /\ Ok(b, eAt, eN, 1) /\ frames >= 0
        /\ Ok(b, iAt, iN, 8)
        /\ U128(b, iC) = frames
        /\ Ok(b, sAt, sN, 2) /\ sN = frames
        /\ Ok(b, cAt, cN, 8) /\ cN = frames
        /\ Ok(b, hAt, hN, 6) /\ hN = frames
        /\ frames <= 2 * eN /\ frames <= 64 * iN
        /\ B(b, tO) = 1
        /\ Ok(b, dAt, dN, 16)
        /\ end = Len(b)
        /\ U32(b, 0) \in 0..10
        /\ U32(b, tO + 5) > 0
        /\ frames % U32(b, tO + 5) = 0
        /\ U128(b, end - 16) \in 0..(128 * dN)
  IN IF ~wellFormed THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, lvl |-> U32(b, 0), frames |-> frames, eAt |-> eAt, iAt |-> iAt, sAt |-> sAt,
           cAt |-> cAt, hAt |-> hAt, rate |-> U32(b, tO + 1), ch |-> U32(b, tO + 5), dAt |-> dAt,
           bits |-> U128(b, end - 16), head |-> Len(b) - 16 * dN]

(* header of frame f, from 0 *)
Exponent(b, L, f) == LET x == B(b, L.eAt + f \div 2) IN IF f % 2 = 0 THEN x % 16 ELSE x \div 16
Starts(b, L, f) == (B(b, L.iAt + f \div 8) \div P2[f % 8]) % 2 = 1
Size(b, L, f) == U16(b, L.sAt + 2 * f)
FirstBit(b, L, f) == U64(b, L.cAt + 8 * f)
History(b, L, f) == [k \in 1..3 |-> I16(b, L.hAt + 6 * f + 2 * (k - 1))]

(* bits, at position p from 0 *)
Bit(b, L, p) == (B(b, L.dAt + p \div 8) \div P2[p % 8]) % 2

RECURSIVE Ones(_, _, _)
Ones(b, L, p) ==
  IF p % 8 = 0 /\ B(b, L.dAt + p \div 8) = 255 THEN 8 + Ones(b, L, p + 8)
  ELSE IF Bit(b, L, p) = 1 THEN 1 + Ones(b, L, p + 1) ELSE 0

(* n <= 16 bits *)
Field(b, L, p, n) ==
  IF n = 0 THEN 0
  ELSE LET o == L.dAt + p \div 8
           w == B(b, o) + 256 * B(b, o + 1) + 65536 * B(b, o + 2)
       IN (w \div P2[p % 8]) % P2[n]

(* state of a channel while a frame is decoded *)
(*   p: next bit, h: the last codes (oldest first), codes: of this frame, res: residuals *)
Raw(b, L, s) ==
  LET c == Wrap16(Field(b, L, s.p, 16))
  IN [s EXCEPT !.p = @ + 16, !.h = Append(IF Len(@) < 3 THEN @ ELSE Tail(@), c), !.codes = Append(@, c)]

Coded(b, L, k, s) ==
  LET neg == Bit(b, L, s.p) = 1
      q == Ones(b, L, s.p + 1)
      m == P2[k] * q + Field(b, L, s.p + 2 + q, k)
      r == IF neg THEN -m ELSE m
      c == Wrap16(r + Predict(s.h[1], s.h[2], s.h[3]))
  IN [s EXCEPT !.p = @ + 2 + q + k, !.h = <<s.h[2], s.h[3], c>>, !.codes = Append(@, c), !.res = Append(@, m)]

Frame(b, L, f, p, h, starts) ==
  LET n == Size(b, L, f)
      k == Exponent(b, L, f)
      raw == IF starts THEN Min2(3, n) ELSE 0
      s0 == [p |-> p, h |-> IF starts THEN <<>> ELSE h, codes |-> <<>>, res |-> <<>>]
      s1 == FoldLeft(LAMBDA s, i : Raw(b, L, s), s0, [i \in 1..raw |-> i])
  IN FoldLeft(LAMBDA s, i : Coded(b, L, k, s), s1, [i \in 1..(n - raw) |-> i])

(* the sample for a code at a level *)
Sample(c, lvl) ==
  FToBits(FScale(IF c = -32768 THEN FRound(-1, 0) ELSE FNormalize(c), lvl))

(* bits of a frame's residuals with exponent k *)
Cost(res, k) == FoldLeft(LAMBDA s, m : s + m \div P2[k] + k + 2, 0, res)
=============================================================================
