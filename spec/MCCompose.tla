------------------------------ MODULE MCCompose ------------------------------
(* Composition of mechanisms known only by (epsilon, delta) guarantees.      *)
(*                                                                           *)
(* A guarantee with epsilon = a ln 2 and delta = d / D is dominated by the   *)
(* pair that with probability d / D gives everything away and otherwise      *)
(* tells one bit flipped with odds 2^a : 1.  A history composes such pairs.  *)
(* All masses are exact integers over Den.                                   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS As, Ds, D, K, MaxDen, EmitRows

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Sum(S, f(_)) == FoldSet(LAMBDA x, y : f(x) + y, 0, S)

VARIABLES hist, lost, mass, den
vars == <<hist, lost, mass, den>>
(* mass[m] is the probability of privacy loss m ln 2 and not having lost all *)
Span(h) == FoldSet(LAMBDA i, y : h[i].a + y, 0, DOMAIN h)
At(f, m) == IF m \in DOMAIN f THEN f[m] ELSE 0
Init == hist = <<>> /\ lost = 0 /\ mass = [m \in {0} |-> 1] /\ den = 1
Compose(g) ==
  LET one == Pow(2, g.a) + 1
      n == Span(hist) + g.a
  IN /\ hist' = Append(hist, g)
     /\ den' = den * D * one
     /\ lost' = lost * D * one + (den - lost) * g.d * one
     /\ mass' = [m \in -n .. n |->
                   (D - g.d) * (Pow(2, g.a) * At(mass, m - g.a) + At(mass, m + g.a))]
Next == \E a \in As, d \in Ds :
          /\ Len(hist) < K
          \* guarantees are exchangeable: only sorted histories
          /\ Len(hist) > 0 => LET l == hist[Len(hist)]
                              IN l.a < a \/ (l.a = a /\ l.d <= d)
          \* keeps all numbers within the integers of TLC
          /\ den * Pow(2, Span(hist)) <= MaxDen \div (D * (Pow(2, a) + 1) * Pow(2, a))
          /\ Compose([a |-> a, d |-> d])
Spec == Init /\ [][Next]_vars

\* delta at epsilon = e ln 2, times den * 2^Span (to stay whole)
Delta(e) == lost * Pow(2, Span(hist))
            + Sum({m \in DOMAIN mass : m > e},
                  LAMBDA m : mass[m] * (Pow(2, Span(hist)) - Pow(2, Span(hist) + e - m)))
Total == lost + Sum(DOMAIN mass, LAMBDA m : mass[m])
IsDistribution == Total = den

\* --- Theorem 3.3 of Kairouz, Oh, Viswanath (1311.0776), for equal guarantees
Uniform == Len(hist) > 0 /\ \A i \in DOMAIN hist : hist[i] = hist[1]
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k) + Binom(n - 1, k - 1)
Part(a, k, i) == Sum(0 .. i - 1, LAMBDA l :
                   Binom(k, l) * (Pow(2, a * (k - l)) - Pow(2, a * (k - 2 * i + l))))
Theorem ==
  Uniform => LET a == hist[1].a
                 d == hist[1].d
                 k == Len(hist)
                 one == Pow(Pow(2, a) + 1, k)
             IN \A i \in 0 .. k \div 2 :
                  \* 1 - (1 - delta)^k (1 - delta_i)
                  Delta(a * (k - 2 * i)) =
                    Pow(2, Span(hist)) * (den - Pow(D - d, k) * (one - Part(a, k, i)))
\* basic composition: epsilons add up, and then only what is lost remains
Basic == Delta(Span(hist)) = lost * Pow(2, Span(hist))
Smaller == \A e \in 0 .. Span(hist) : Delta(e) >= Delta(e + 1)
Worse == [][LET g == hist'[Len(hist')]
            IN \A e \in 0 .. Span(hist) :
                 Delta(e)' >= Delta(e) * D * (Pow(2, g.a) + 1) * Pow(2, g.a)]_vars
Emitted == (EmitRows /\ hist # <<>>) => PrintT("@@ROW " \o ToJson(
  [hist |-> hist, den |-> den * Pow(2, Span(hist)), lost |-> lost * Pow(2, Span(hist)),
   delta |-> [i \in 1 .. Span(hist) + 1 |-> Delta(i - 1)]]))
=============================================================================
