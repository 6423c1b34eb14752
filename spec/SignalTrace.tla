---------------------------- MODULE SignalTrace ----------------------------
(***************************************************************************)
(* C28.  Signals of small integers, so that single precision sums are      *)
(* exact in any order.                                                     *)
(*   conv   samples x, kernel k, the result (the rest of the result buffer *)
(*          was `fill`); an infinite sample is Wild or -Wild, one that isn't  *)
(*          a number Wild - 1                                              *)
(*   scale  samples x, length n, the result in units of 2^-10              *)
(*   mse    samples x and y, the result in units of 2^-10                  *)
(*   parabola  three values f, the parabola's values at -2..5              *)
(*   bell   a Gaussian kernel of 2*m*w+1 values with sigma = m places: its *)
(*          values relative to the one in the middle (`top` * sigma, in    *)
(*          units of 2^-20) in units of 2^-15                              *)
(***************************************************************************)
EXTENDS TraceBase

TInit == TBInit

RECURSIVE Dot(_, _, _, _)
(* sum over j of kernel value j times sample i + j - half *)
Dot(x, k, at, j) ==
  IF j > Len(k) THEN 0
  ELSE (IF at + j \in DOMAIN x THEN x[at + j] * k[j] ELSE 0) + Dot(x, k, at, j + 1)

(* positions count from 1: the kernel value in the middle is number half + 1 *)

Wild == 9999999
IsWild(v) == v >= Wild - 1 \/ v = -Wild
(* the kernel values that meet a sample that isn't finite, around place i *)
Met(x, k, i) == LET at == (i - (Len(k) \div 2)) - 1
                IN {j \in DOMAIN k : at + j \in DOMAIN x /\ IsWild(x[at + j])}
(* there's one of them at most; nothing is said about the product with 0 *)
ConvolvedAt(x, k, i, v) ==
  LET at == (i - (Len(k) \div 2)) - 1
      met == Met(x, k, i)
  IN IF met = {} THEN v = Dot(x, k, at, 1)
     ELSE LET j == CHOOSE j \in met : TRUE
          IN k[j] = 0 \/ v = (IF x[at + j] = Wild - 1 THEN Wild - 1 ELSE IF k[j] > 0 THEN x[at + j] ELSE -x[at + j])

Abs(n) == IF n < 0 THEN -n ELSE n

(* the value at place p of 0..n-1, times n - 1, when 0..n-1 is stretched over the signal *)
Scaled(x, n, p) ==
  LET num == p * (Len(x) - 1)
      w == num \div (n - 1)
      r == num % (n - 1)
      a == x[w + 1]
      b == IF r = 0 THEN a ELSE x[w + 2]
  IN a * ((n - 1) - r) + b * r

RECURSIVE Squares(_, _, _)
Squares(x, y, n) == IF n = 0 THEN 0 ELSE (x[n] - y[n]) * (x[n] - y[n]) + Squares(x, y, n - 1)

Mse ==
  LET n == IF Len(Ev.x) < Len(Ev.y) THEN Len(Ev.x) ELSE Len(Ev.y)
  IN Abs(Ev.out * n - 1024 * Squares(Ev.x, Ev.y, n)) <= n * (2 + Ev.out \div 1048576)

(* Lagrange's form, times 2 *)
Through(f, x) == f[1] * ((x - 1) * (x - 2)) - 2 * f[2] * (x * (x - 2)) + f[3] * (x * (x - 1))
Parabola == /\ Len(Ev.out) = 8
            /\ \A i \in 1..8 : 2 * Ev.out[i] = Through(Ev.f, i - 3)

(* g(0) = 1 / (sigma * sqrt(2 pi)); relative to it, g(-x) = g(x), g falls away from 0,
   g(sigma) = exp(-1/2), and g(2x) = g(x)^4 *)
Pow4(u) == LET v == (u * u) \div 32768 IN (v * v) \div 32768
Bell ==
  LET half == Ev.m * Ev.w
      G(j) == Ev.out[half + 1 + j]
  IN /\ Len(Ev.out) = 2 * half + 1
     /\ Abs(Ev.top - 418321) <= 400
     /\ G(0) = 32768
     /\ TRUE = \A j \in 1..half : /\ Abs(G(j) - G(-j)) <= 1
                                 /\ G(j) >= 0 /\ G(j) <= G(j - 1)
                                 /\ 2 * j <= half => Abs(G(2 * j) - Pow4(G(j))) <= 8
     /\ Abs(G(Ev.m) - 19875) <= 8

TNext ==
  \/ /\ Is("conv")
     /\ Len(Ev.out) = Len(Ev.x)
     /\ TRUE = \A i \in DOMAIN Ev.x : ConvolvedAt(Ev.x, Ev.k, i, Ev.out[i])
     /\ Ev.rest = 0     \* the buffer behind the result is as it was
  \/ /\ Is("scale")
     /\ Len(Ev.out) = Ev.n
     /\ TRUE = \A p \in 0..(Ev.n - 1) :
          Abs(Ev.out[p + 1] * (Ev.n - 1) - 1024 * Scaled(Ev.x, Ev.n, p)) <= 8 * (Ev.n - 1)
     /\ Abs(Ev.out[1] - 1024 * Ev.x[1]) <= 1
  \/ Is("mse") /\ Mse
  \/ Is("parabola") /\ Parabola
  \/ Is("bell") /\ Bell
  \/ Finished /\ UNCHANGED <<sc, l>>

View == <<sc, l>>

TSpec == TInit /\ [][TNext]_<<sc, l>>
=============================================================================
