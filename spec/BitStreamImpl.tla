--------------------------- MODULE BitStreamImpl ---------------------------
(***************************************************************************)
(* The bit stream as implemented, W bits to a chunk and fields of up to W  *)
(* bits (W = 128 in the code), refines BitStream.tla (C18).  Chunks are    *)
(* functions from bit numbers; `known` bounds the defined content, which   *)
(* the code doesn't keep.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS W, MaxBits

VARIABLES bin, cur, cap, known, ret
vars == <<bin, cur, cap, known, ret>>

Max(a, b) == IF a > b THEN a ELSE b
Blank == [i \in 0..(W - 1) |-> 0]
Alloc(b, k) == IF k >= Len(b) THEN Append(b, Blank) ELSE b
Chunk == cur \div W
Bit == cur % W

Init == bin = <<>> /\ cur = 0 /\ cap = 0 /\ known = 0 /\ ret = <<>>

(* v is a sequence of at most W bits; as a number it has zeros above *)
At(v, i) == IF i \in DOMAIN v THEN v[i] ELSE 0

WriteBits(v) ==
  LET n == Len(v)
      b == Alloc(Alloc(bin, Chunk), Chunk + 1)
      \* bits before the cursor are kept, the value is shifted in
      c == [i \in 0..(W - 1) |-> IF i < Bit THEN b[Chunk + 1][i] ELSE At(v, i - Bit + 1)]
      left == W - Bit
      d == [i \in 0..(W - 1) |-> At(v, i + left + 1)]
      b1 == [b EXCEPT ![Chunk + 1] = c]
  IN /\ cur + n <= MaxBits
     /\ bin' = IF left < n THEN [b1 EXCEPT ![Chunk + 2] = d] ELSE b1
     /\ cur' = cur + n /\ cap' = Max(cap, cur') /\ known' = cur' /\ ret' = <<>>

WriteBit(x) ==
  LET b == Alloc(bin, Chunk)
      c == [i \in 0..(W - 1) |-> IF i < Bit THEN b[Chunk + 1][i] ELSE IF i = Bit THEN x ELSE 0]
  IN /\ cur < MaxBits
     /\ bin' = [b EXCEPT ![Chunk + 1] = c]
     /\ cur' = cur + 1 /\ cap' = Max(cap, cur') /\ known' = cur' /\ ret' = <<>>

PeekBits(n) ==
  LET b == Alloc(Alloc(bin, Chunk), Chunk + 1)
  IN <<b, [i \in 1..n |-> IF Bit + i - 1 < W THEN b[Chunk + 1][Bit + i - 1]
                          ELSE b[Chunk + 2][Bit + i - 1 - W]]>>

Peek(n) == cur + n <= known /\ bin' = PeekBits(n)[1] /\ ret' = PeekBits(n)[2] /\ UNCHANGED <<cur, cap, known>>
Read(n) == /\ cur + n <= known /\ bin' = PeekBits(n)[1] /\ ret' = PeekBits(n)[2]
           /\ cur' = cur + n /\ cap' = Max(cap, cur') /\ UNCHANGED known
ReadBit == /\ cur + 1 <= known
           /\ ret' = <<bin[Chunk + 1][Bit]>>
           /\ cur' = cur + 1 /\ cap' = Max(cap, cur') /\ UNCHANGED <<bin, known>>
Seek(p) == p <= known /\ cur' = p /\ ret' = <<>> /\ UNCHANGED <<bin, cap, known>>

Fields == UNION {[1..n -> {0, 1}] : n \in 0..W}

Next == \/ \E v \in Fields : WriteBits(v)
        \/ \E x \in {0, 1} : WriteBit(x)
        \/ \E n \in 0..W : Peek(n) \/ Read(n)
        \/ ReadBit
        \/ \E p \in 0..known : Seek(p)
Spec == Init /\ [][Next]_vars

Content == [i \in 1..known |-> bin[((i - 1) \div W) + 1][(i - 1) % W]]
Abs == INSTANCE BitStream WITH bits <- Content
AbsNext == \/ \E v \in Fields : Abs!Write(v)
           \/ \E n \in 0..W : Abs!Peek(n) \/ Abs!Read(n)
           \/ \E p \in 0..known : Abs!Seek(p)
Refines == Abs!Init /\ [][AbsNext]_vars
(* chunks are only ever added one after the other *)
Inv == Abs!Inv /\ known <= W * Len(bin) /\ cur <= W * Len(bin) /\ Len(bin) <= cap \div W + 2
=============================================================================
