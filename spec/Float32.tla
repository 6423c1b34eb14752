------------------------------ MODULE Float32 ------------------------------
(***************************************************************************)
(* Exact IEEE-754 single precision arithmetic, as far as the codec uses    *)
(* it, on TLC's 32-bit integers.                                           *)
(*                                                                         *)
(* A float is a pair <<m, e>> with value m * 2^e; it is normalised when    *)
(* m = 0 (then e = 0) or 2^23 <= |m| < 2^24.  Rounding is to nearest, ties *)
(* to even.  Subnormal results cannot arise in the codec (all values are   *)
(* multiples of 2^-60 or so) and are not modelled.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

P2 == [i \in 0..30 |-> 2^i]

Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE 1
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

(* number of bits of n, for 0 <= n < 2^31 *)
BL4(n) == IF n < 4 THEN (IF n < 2 THEN n ELSE 2) ELSE (IF n < 8 THEN 3 ELSE 4)
BL8(n) == IF n < 16 THEN BL4(n) ELSE 4 + BL4(n \div 16)
BL16(n) == IF n < 256 THEN BL8(n) ELSE 8 + BL8(n \div 256)
BitLen(n) == IF n < 65536 THEN BL16(n) ELSE 16 + BL16(n \div 65536)

FZero == <<0, 0>>

(* the float nearest to p * 2^e, |p| < 2^31 *)
FRound(p, e) ==
  IF p = 0 THEN FZero
  ELSE LET a == Abs(p)
           n == BitLen(a)
       IN IF n <= 24
          THEN <<p * P2[24 - n], e - (24 - n)>>
          ELSE LET k == n - 24
                   q == a \div P2[k]
                   r == a % P2[k]
                   h == P2[k - 1]
                   t == IF r > h \/ (r = h /\ q % 2 = 1) THEN q + 1 ELSE q
               IN IF t = 16777216 THEN <<Sgn(p) * 8388608, e + k + 1>>
                                  ELSE <<Sgn(p) * t, e + k>>

FNeg(x) == <<-x[1], x[2]>>

(* multiplication by 2^k *)
FScale(x, k) == IF x[1] = 0 THEN x ELSE <<x[1], x[2] + k>>

(* |a| aligned, exponent of a >= exponent of b, neither zero *)
FAddAligned(a, b) ==
  LET d == a[2] - b[2]
  IN IF d >= 27 THEN a
     ELSE LET t == Abs(b[1]) * 8
              q == t \div P2[d]
              \* sticky bit
              s == IF t % P2[d] # 0 /\ q % 2 = 0 THEN q + 1 ELSE q
          IN FRound(a[1] * 8 + Sgn(b[1]) * s, a[2] - 3)

FAdd(a, b) ==
  IF a[1] = 0 THEN b
  ELSE IF b[1] = 0 THEN a
  ELSE IF a[2] >= b[2] THEN FAddAligned(a, b) ELSE FAddAligned(b, a)

FSub(a, b) == FAdd(a, FNeg(b))

(* multiplication by a small integer constant, 0 < k < 128 *)
FMulSmall(x, k) == FRound(x[1] * k, x[2])

(* x * 32767, correctly rounded: the exact product is x * 2^15 - x *)
FMul32767(x) == FSub(FScale(x, 15), x)

(* |x| >= 1, x normalised *)
FGeOne(x) == x[1] # 0 /\ x[2] >= -23

(* fraction dropped; |x| < 2^23 *)
FTrunc(x) ==
  IF x[2] >= 0 THEN x[1] * P2[x[2]]
  ELSE IF -x[2] > 24 THEN 0
  ELSE Sgn(x[1]) * (Abs(x[1]) \div P2[-x[2]])

-----------------------------------------------------------------------------
(* IEEE bit patterns as signed 32-bit integers *)

FExpField(b) == (IF b < 0 THEN b + 2147483647 + 1 ELSE b) \div 8388608
FFrac(b) == (IF b < 0 THEN b + 2147483647 + 1 ELSE b) % 8388608
FIsFinite(b) == FExpField(b) < 255
FIsNan(b) == FExpField(b) = 255 /\ FFrac(b) # 0

FFromBits(b) ==
  LET x == FExpField(b)
      f == FFrac(b)
      s == IF b < 0 THEN -1 ELSE 1
  IN IF x = 0 THEN FRound(s * f, -149) ELSE <<s * (8388608 + f), x - 150>>

(* normalised, in the normal range; +0.0 for 0 *)
FToBits(x) ==
  IF x[1] = 0 THEN 0
  ELSE LET mag == (x[2] + 150) * 8388608 + (Abs(x[1]) - 8388608)
       IN IF x[1] < 0 THEN (mag - 2147483647) - 1 ELSE mag

-----------------------------------------------------------------------------
(* The codec's sample conversions *)

I16Max == 32767

(* code / 32767 as the codec computes it: 1/32767 rounds to 32769 * 2^-30 *)
FNormalize(c) == FRound(c * 32769, -30)

(* clamp to [-1, 1], scale, drop the fraction; x is a finite float *)
FQuantize(x) ==
  IF FGeOne(x) THEN (IF x[1] < 0 THEN -I16Max ELSE I16Max)
  ELSE FTrunc(FMul32767(x))

QuantizeBits(b) == IF FExpField(b) < 100 THEN 0 ELSE FQuantize(FFromBits(b))

(* the sample that level 0 returns for input bits b *)
NormBits(c) == FToBits(FNormalize(c))

(* quadratic extrapolation through the last three codes (h1 is the latest) *)
Predict(h3, h2, h1) ==
  LET f0 == FNormalize(h3)
      f1 == FNormalize(h2)
      f2 == FNormalize(h1)
      d  == FSub(f1, f0)
      e  == FSub(f2, f0)
      c1 == FScale(FSub(FScale(d, 2), e), -1)
      c2 == FScale(FSub(e, FScale(d, 1)), -1)
      v  == FAdd(f0, FMulSmall(FAdd(c1, FMulSmall(c2, 3)), 3))
  IN FQuantize(v)

(* 16-bit wrap around *)
Wrap16(n) == ((n + 32768) % 65536) - 32768
=============================================================================
