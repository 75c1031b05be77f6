------------------------------ MODULE MCConvert ------------------------------
(* Every pair of distributions on N outcomes over D: the conversion from its *)
(* Renyi moments never understates its delta.                                *)
EXTENDS Rdp, Json
CONSTANTS N, D, MaxA, EmitRows
VARIABLES p, phase
vars == <<p, phase>>
RECURSIVE Parts(_, _)
Parts(n, s) == IF n = 1 THEN {<<s>>}
               ELSE UNION {{<<k>> \o t : t \in Parts(n - 1, s - k)} : k \in 0 .. s}
Init == phase = 0 /\ \E u \in Parts(N, D), l \in Parts(N, D) : p = [up |-> u, lo |-> l]
Next == phase = 0 /\ phase' = 1 /\ p' = p
Spec == Init /\ [][Next]_vars
Pos(x) == IF x > 0 THEN x ELSE 0
Hs(j) == Norm(<<MapThenSumSet(LAMBDA o : Pos(p.up[o] - P(2, j) * p.lo[o]),
                              DOMAIN p.up), D>>)
J == 0 .. 3
A == 2 .. MaxA
Sound == phase = 1 => \A a \in A, j \in J :
           RLeq(Hs(j), DeltaBound(Moment(p, D, a), a, j))
KlSound == phase = 1 => \A a \in A, j \in J : KlCovers(Moment(p, D, a), a, Hs(j))
\* larger orders see more
Ordered == phase = 1 => \A a \in A : a + 1 \in A /\ Moment(p, D, a)[2] # 0 =>
   RLeq(Moment(p, D, a), RMul(Moment(p, D, a), Moment(p, D, a))) \* M >= 1
EpsInverts == phase = 1 => \A a \in A, j \in J :
  LET m == Moment(p, D, a)
      d == DeltaBound(m, a, j)
  IN m[2] # 0 => ExpEps(m, a, d) = <<P(2, (a - 1) * j), 1>>
Emitted == (EmitRows /\ phase = 0) => PrintT("@@ROW " \o ToJson(
   [up |-> p.up, lo |-> p.lo, d |-> D,
    hs |-> [j \in 1 .. 4 |-> Hs(j - 1)],
    m |-> [a \in A |-> Moment(p, D, a)],
    db |-> [a \in A |-> [j \in 1 .. 4 |-> DeltaBound(Moment(p, D, a), a, j - 1)]],
    ee |-> [a \in A |-> ExpEps(Moment(p, D, a), a, <<1, 8>>)]]))
=============================================================================
