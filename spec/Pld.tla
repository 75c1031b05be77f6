--------------------------------- MODULE Pld ---------------------------------
(***************************************************************************)
(* Privacy loss distributions in exact integer arithmetic.                 *)
(*                                                                         *)
(* Privacy losses are measured in units of ln 2, so that e^loss is a power *)
(* of two and every quantity below is a ratio of integers.                 *)
(*                                                                         *)
(*   a pair  [up, lo]       two output distributions over outcomes         *)
(*                          1..n, as numerators over the common D          *)
(*   a PMF   [m, inf, den]  m: loss -> numerator; inf: numerator of the    *)
(*                          unbounded loss; both over den                  *)
(*                                                                         *)
(* Hs(j) is the hockey-stick divergence at epsilon = j ln 2: the delta of  *)
(* the mechanism at that epsilon.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Bigger(a, b) == IF a > b THEN a ELSE b
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
SumOver(S, f(_)) == MapThenSumSet(f, S)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

(******************************* pairs *************************************)
\* delta at j ln 2 of a pair, as <<numerator, denominator>>.
HsPair(p, D, j) ==
  IF j >= 0
  THEN << SumOver(DOMAIN p.up, LAMBDA o : Bigger(0, p.up[o] - Pow(2, j) * p.lo[o])),
          D >>
  ELSE << SumOver(DOMAIN p.up, LAMBDA o : Bigger(0, Pow(2, -j) * p.up[o] - p.lo[o])),
          D * Pow(2, -j) >>
Swap(p) == [up |-> p.lo, lo |-> p.up]
\* Running two mechanisms on the same data.
Product(p, q) ==
  LET n == Len(q.up)
      idx == 1 .. (Len(p.up) * n)
      a(i) == ((i - 1) \div n) + 1
      b(i) == ((i - 1) % n) + 1
  IN [up |-> [i \in idx |-> p.up[a(i)] * q.up[b(i)]],
      lo |-> [i \in idx |-> p.lo[a(i)] * q.lo[b(i)]]]

(***************************** rounding ************************************)
K == 12      \* no ratio of the models exceeds 2^K
\* smallest k with 2^k >= a/b, largest k with 2^k <= a/b   (a, b > 0)
CeilLog2(a, b) == CHOOSE k \in -K .. K :
  /\ IF k >= 0 THEN Pow(2, k) * b >= a ELSE b >= a * Pow(2, -k)
  /\ IF k - 1 >= 0 THEN Pow(2, k - 1) * b < a ELSE b < a * Pow(2, 1 - k)
FloorLog2(a, b) == -CeilLog2(b, a)
OnGrid(p) == \A o \in DOMAIN p.up :
  p.up[o] > 0 /\ p.lo[o] > 0 => CeilLog2(p.up[o], p.lo[o]) = FloorLog2(p.up[o], p.lo[o])

Round(p, D, R(_, _)) ==
  LET fin == {o \in DOMAIN p.up : p.up[o] > 0 /\ p.lo[o] > 0}
      inf == {o \in DOMAIN p.up : p.up[o] > 0 /\ p.lo[o] = 0}
      loss(o) == R(p.up[o], p.lo[o])
  IN [m |-> [l \in {loss(o) : o \in fin} |->
               SumOver({o \in fin : loss(o) = l}, LAMBDA o : p.up[o])],
      inf |-> SumOver(inf, LAMBDA o : p.up[o]),
      den |-> D]
RoundUp(p, D) == Round(p, D, CeilLog2)
RoundDown(p, D) == Round(p, D, FloorLog2)

(******************************** PMFs *************************************)
Mass(f) == f.inf + SumOver(DOMAIN f.m, LAMBDA l : f.m[l])
\* delta at j ln 2, as <<numerator, denominator>>.
Hs(f, j) ==
  LET above == {l \in DOMAIN f.m : l > j}
      s == IF above = {} THEN 0 ELSE MaxOf(above) - j
  IN << f.inf * Pow(2, s) + SumOver(above,
          LAMBDA l : f.m[l] * (Pow(2, s) - Pow(2, s - (l - j)))),
        f.den * Pow(2, s) >>
\* the same numerator over f.den * 2^s for a given s (large enough)
HsNum(f, j, s) ==
  f.inf * Pow(2, s) + SumOver({l \in DOMAIN f.m : l > j},
     LAMBDA l : f.m[l] * (Pow(2, s) - Pow(2, s - (l - j))))
HiOf(f) == IF DOMAIN f.m = {} THEN 0 ELSE MaxOf(DOMAIN f.m)
\* delta_f(j) <= delta_g(k), for denominators that divide each other
HsLeq(f, j, g, k) ==
  LET s == Bigger(0, Bigger(HiOf(f) - j, HiOf(g) - k))
      d == Bigger(f.den, g.den)
  IN HsNum(f, j, s) * (d \div f.den) <= HsNum(g, k, s) * (d \div g.den)
Leq(x, y) == x[1] * y[2] <= y[1] * x[2]
Eq(x, y) == x[1] * y[2] = y[1] * x[2]
\* A PMF that is the loss distribution of some pair: the lower measure it
\* implies has mass at most one.
Valid(f) ==
  \/ DOMAIN f.m = {}
  \/ LET h == Bigger(0, MaxOf(DOMAIN f.m)) IN
       SumOver(DOMAIN f.m, LAMBDA l : f.m[l] * Pow(2, h - l))
         <= f.den * Pow(2, h)

Identity == [m |-> (0 :> 1), inf |-> 0, den |-> 1]
Compose(f, g) ==
  LET dom == {k + l : k \in DOMAIN f.m, l \in DOMAIN g.m}
  IN [m |-> [x \in dom |-> SumOver({k \in DOMAIN f.m : x - k \in DOMAIN g.m},
                                   LAMBDA k : f.m[k] * g.m[x - k])],
      inf |-> f.inf * g.den + g.inf * f.den - f.inf * g.inf,
      den |-> f.den * g.den]
RECURSIVE SelfCompose(_, _)
SelfCompose(f, n) == IF n = 1 THEN f ELSE Compose(f, SelfCompose(f, n - 1))

(******************************* queries ***********************************)
\* The smallest epsilon >= 0 with delta(epsilon) <= d/f.den.  Either "inf",
\* "zero", or [a, b] standing for ln(a/b).
Above(f, j) == {l \in DOMAIN f.m : f.m[l] > 0 /\ l > j}
Upper(f, j) == f.inf + SumOver(Above(f, j), LAMBDA l : f.m[l])
\* lower measure above j, in units of 2^-h / den
LowerH(f, j, h) == SumOver(Above(f, j), LAMBDA l : f.m[l] * Pow(2, h - l))
EpsFor(f, d) ==
  LET supp == {l \in DOMAIN f.m : f.m[l] > 0}
      h == IF supp = {} THEN 0 ELSE Bigger(0, MaxOf(supp))
      DeltaOk(j) == Leq(Hs(f, j), <<d, f.den>>)
  IN IF f.inf > d THEN [k |-> "inf"]
     ELSE IF DeltaOk(0) THEN [k |-> "zero"]
     ELSE \* the first grid point where delta <= d: the answer lies in the
          \* cell ending there, where delta is Upper - e^eps * Lower
          LET j == CHOOSE j \in 1 .. h : DeltaOk(j) /\ ~DeltaOk(j - 1)
          IN [k |-> "ln", a |-> (Upper(f, j - 1) - d) * Pow(2, h),
              b |-> LowerH(f, j - 1, h), cell |-> j]
=============================================================================
