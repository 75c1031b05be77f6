----------------------------- MODULE MCPldPairs ------------------------------
(* Every pair of distributions on N outcomes with denominator D, and what    *)
(* discretization must do with it.                                           *)
EXTENDS Pld, Json
CONSTANTS N, D, EmitRows, PartnerD
VARIABLES p, phase
vars == <<p, phase>>

RECURSIVE Parts(_, _)
\* all sequences of n naturals that sum to s
Parts(n, s) == IF n = 1 THEN {<<s>>}
               ELSE UNION {{<<k>> \o t : t \in Parts(n - 1, s - k)} : k \in 0 .. s}
Init == /\ phase = 0
        /\ \E u \in Parts(N, D), l \in Parts(N, D) : p = [up |-> u, lo |-> l]
\* the partner for compositions
Partners == {[up |-> u, lo |-> l] : u \in Parts(2, PartnerD), l \in Parts(2, PartnerD)}
Next == phase = 0 /\ phase' = 1 /\ p' = p
Spec == Init /\ [][Next]_vars
J == -3 .. 3

\* The rounded distributions bound the truth from the right sides ...
Dominates == phase = 1 => \A j \in J : Leq(HsPair(p, D, j), Hs(RoundUp(p, D), j))
Dominated == phase = 1 => \A j \in J : Leq(Hs(RoundDown(p, D), j), HsPair(p, D, j))
\* ... never by more than one cell ...
Tight == phase = 1 =>
  \A j \in J : /\ Leq(Hs(RoundUp(p, D), j), HsPair(p, D, j - 1))
               /\ Leq(HsPair(p, D, j + 1), Hs(RoundDown(p, D), j))
\* ... and exactly when the losses are on the grid.
Exact == phase = 1 /\ OnGrid(p) => \A j \in J : /\ Eq(HsPair(p, D, j), Hs(RoundUp(p, D), j))
                                   /\ Eq(HsPair(p, D, j), Hs(RoundDown(p, D), j))
MassOne == phase = 1 => Mass(RoundUp(p, D)) = D /\ Mass(RoundDown(p, D)) = D
\* a rounded-up distribution still is one (rounded-down need not be)
UpValid == phase = 1 => Valid(RoundUp(p, D))
\* The two orders of a pair see complementary curves:
\* delta_swap(j) = 1 - 2^j + 2^j delta(-j).
SwapLaw == phase = 1 => \A j \in 0 .. 3 :
  LET a == HsPair(Swap(p), D, j)
      b == HsPair(p, D, -j)
  IN a[1] * b[2] = (1 - Pow(2, j)) * D * b[2] + Pow(2, j) * b[1] * D
\* Bounds survive composition.
ComposedDominates ==
  phase = 1 => \A q \in Partners : \A j \in -2 .. 2 :
    LET DD == D * PartnerD
        e == HsPair(Product(p, q), DD, j)
    IN /\ Leq(e, Hs(Compose(RoundUp(p, D), RoundUp(q, PartnerD)), j))
       /\ Leq(Hs(Compose(RoundDown(p, D), RoundDown(q, PartnerD)), j), e)
Monotone == phase = 1 => \A j \in -3 .. 2 : Leq(HsPair(p, D, j + 1), HsPair(p, D, j))

Rows(f) == {[l |-> l, n |-> f.m[l]] : l \in DOMAIN f.m}
Emitted == (EmitRows /\ phase = 0) => PrintT("@@ROW " \o ToJson(
   [up |-> p.up, lo |-> p.lo, d |-> D,
    hs |-> [i \in 1 .. 7 |-> HsPair(p, D, i - 4)],
    ru |-> Rows(RoundUp(p, D)), rui |-> RoundUp(p, D).inf,
    rd |-> Rows(RoundDown(p, D)), rdi |-> RoundDown(p, D).inf]))
=============================================================================
