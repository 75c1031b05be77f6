--------------------------------- MODULE Rdp ---------------------------------
(***************************************************************************)
(* Renyi differential privacy in exact rational arithmetic.                *)
(*                                                                         *)
(* The order-a Renyi divergence of a pair (P, Q) is ln(M_a) / (a - 1) with *)
(* the moment  M_a = sum P^a Q^(1-a).  Moments are kept, not divergences:  *)
(* they are rational when the noise is chosen such that                    *)
(*     1 / sigma^2 = w ln 2   (Gaussian),     1 / b = m ln 2   (Laplace).  *)
(*                                                                         *)
(* Rationals are <<numerator, denominator>>; <<1, 0>> is infinity.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

RECURSIVE P(_, _)
P(b, n) == IF n = 0 THEN 1 ELSE b * P(b, n - 1)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(x) == IF x[2] = 0 THEN <<1, 0>>
           ELSE LET g == Gcd(x[1], x[2]) IN <<x[1] \div g, x[2] \div g>>
Inf == <<1, 0>>
One == <<1, 1>>
Zero == <<0, 1>>
RLeq(x, y) == x[1] * y[2] <= y[1] * x[2]
RMax(x, y) == IF RLeq(x, y) THEN y ELSE x
RMin(x, y) == IF RLeq(x, y) THEN x ELSE y
RMul(x, y) == IF x[2] = 0 \/ y[2] = 0 THEN Inf
  ELSE LET a == Norm(<<x[1], y[2]>>)
           b == Norm(<<y[1], x[2]>>)
       IN Norm(<<a[1] * b[1], a[2] * b[2]>>)
RAdd(x, y) == IF x[2] = 0 \/ y[2] = 0 THEN Inf
  ELSE LET g == Gcd(x[2], y[2])
       IN Norm(<<x[1] * (y[2] \div g) + y[1] * (x[2] \div g),
                 x[2] * (y[2] \div g)>>)
RECURSIVE RSum(_, _, _)
RSum(f(_), lo, hi) == IF lo > hi THEN Zero ELSE RAdd(f(lo), RSum(f, lo + 1, hi))
RECURSIVE RPow(_, _)
RPow(x, n) == IF n = 0 THEN One ELSE RMul(x, RPow(x, n - 1))
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 \/ k = n THEN 1
                ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
Tri(a) == (a * (a - 1)) \div 2

(***************************** mechanisms **********************************)
\* Two output distributions given as numerators over the same denominator.
Moment(p, D, a) ==
  IF \E o \in DOMAIN p.up : p.up[o] > 0 /\ p.lo[o] = 0 THEN Inf
  ELSE RSum(LAMBDA o : IF p.up[o] = 0 THEN Zero
                       ELSE Norm(<<P(p.up[o], a), D * P(p.lo[o], a - 1)>>),
            1, Len(p.up))
\* Gaussian with sensitivity 1 (moments of N(1, s^2) against N(0, s^2)).
Gauss(w, a) == <<P(2, w * Tri(a)), 1>>
\* ... sampled with probability n/d: moments of the mixture against N(0, s^2).
SubGauss(n, d, w, a) ==
  Norm(<<MapThenSumSet(LAMBDA k : Choose(a, k) * P(d - n, a - k) * P(n, k)
                                  * P(2, w * Tri(k)), 0 .. a), P(d, a)>>)
Laplace(m, a) ==
  Norm(<<a * P(2, m * (2 * a - 1)) + (a - 1), (2 * a - 1) * P(2, m * a)>>)
\* Randomized response: keeps the input with probability 1 - n/d, otherwise
\* uniform over k values.
RROne(n, d, k) == [up |-> [i \in 1 .. k |-> IF i = 1 THEN k * (d - n) + n ELSE n],
                   lo |-> [i \in 1 .. k |-> IF i = 2 THEN k * (d - n) + n ELSE n]]
RRSpecial(n, d, k) ==
  [up |-> [i \in 1 .. k |-> IF i = 1 THEN k * (d - n) + n ELSE n],
   lo |-> [i \in 1 .. k |-> d]]
Swap(p) == [up |-> p.lo, lo |-> p.up]
RR(rel, n, d, k, a) ==
  IF rel = "one"
  THEN IF k = 1 THEN One ELSE Moment(RROne(n, d, k), d * k, a)
  ELSE RMax(Moment(RRSpecial(n, d, k), d * k, a),
            Moment(Swap(RRSpecial(n, d, k)), d * k, a))
\* Tree aggregation of n steps: every leaf is covered by at most Depth(n)
\* of the dyadic blocks whose sums are released.
Depth(n) == CHOOSE k \in 0 .. 31 : /\ P(2, k) >= n + 1
                                   /\ k = 0 \/ P(2, k - 1) < n + 1
Blocks(n, i) == {l \in 0 .. (IF n < 20 THEN n ELSE 20) : /\ P(2, l) <= n
                   /\ (((i - 1) \div P(2, l)) + 1) * P(2, l) <= n}
Tree(w, n, a) == Gauss(w * Depth(n), a)
\* Sampling n of d without replacement (Wang, Balle, Kasiviswanathan 2019,
\* Theorem 27). Chi(l) = E_Q[(P/Q - 1)^l] of the unsampled Gaussian.
ChiSigned(w, l) == MapThenSumSet(LAMBDA j :
     (IF (l - j) % 2 = 0 THEN 1 ELSE -1) * Choose(l, j) * P(2, w * Tri(j)),
   0 .. l)
SworTerm(n, d, w, a, i) ==
  \* the i-th summand as coefficient * min(4 sqrt(lo * hi), 2 cap)
  [c |-> Norm(<<P(n, i) * Choose(a, i), P(d, i)>>),
   lo |-> ChiSigned(w, 2 * (i \div 2)),
   hi |-> ChiSigned(w, 2 * ((i + 1) \div 2)),
   cap |-> P(2, w * Tri(i))]

(**************************** conversions **********************************)
\* Upper bounds on delta at epsilon = j ln 2, from a moment of order a > 1
\* (Canonne, Kamath, Steinke 2020, Proposition 12).
DeltaBound(M, a, j) ==
  RMul(M, RMul(RPow(<<a - 1, a>>, a - 1),
               <<1, a * P(2, (a - 1) * j)>>))
\* The same inequality solved for epsilon: e^((a-1) epsilon) as a rational.
ExpEps(M, a, delta) ==
  RMul(M, RMul(RPow(<<a - 1, a>>, a - 1), <<delta[2], a * delta[1]>>))
\* delta <= sqrt(1 - exp(-r)) with r any Renyi divergence, raised to 2(a-1):
\* (1 - delta^2)^(a-1) >= 1 / M.
KlCovers(M, a, delta) ==
  M[2] = 0 \/ LET x == RPow(Norm(<<delta[2] * delta[2] - delta[1] * delta[1],
                                   delta[2] * delta[2]>>), a - 1)
              IN RLeq(Norm(<<M[2], M[1]>>), x)
=============================================================================
