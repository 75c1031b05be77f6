-------------------------------- MODULE MCRdp --------------------------------
(* Every mechanism of the bounded universe: laws of its moments, and rows   *)
(* that the implementation must reproduce.                                  *)
EXTENDS Rdp, Json
CONSTANTS MaxA
VARIABLES mech, phase
vars == <<mech, phase>>

Qs == {<<1, 2>>, <<1, 4>>, <<3, 4>>, <<1, 3>>, <<2, 5>>}
Mechs ==
  {[t |-> "gauss", w |-> w] : w \in 1 .. 2}
  \cup {[t |-> "pgauss", n |-> q[1], d |-> q[2], w |-> w] : q \in Qs, w \in 1 .. 2}
  \cup {[t |-> "lap", m |-> m] : m \in 1 .. 3}
  \cup {[t |-> "rr", rel |-> r, n |-> q[1], d |-> q[2], k |-> k] :
          r \in {"one", "special"}, q \in Qs, k \in {2, 3}}
  \cup {[t |-> "tree", w |-> 1, s |-> s] : s \in 1 .. 4}
  \cup {[t |-> "swor", n |-> q[1], d |-> q[2], w |-> 1] : q \in Qs}
Top(m) == CASE m.t = "gauss" -> IF m.w = 1 THEN 7 ELSE 5
            [] m.t = "pgauss" -> IF m.w = 1 THEN 5 ELSE 4
            [] m.t = "lap" -> IF m.m = 1 THEN 8 ELSE 4
            [] m.t = "rr" -> 3
            [] m.t = "tree" -> IF m.s < 2 THEN 6 ELSE 3
            [] m.t = "swor" -> 6
M(m, a) ==
  CASE m.t = "gauss" -> Gauss(m.w, a)
    [] m.t = "pgauss" -> SubGauss(m.n, m.d, m.w, a)
    [] m.t = "lap" -> Laplace(m.m, a)
    [] m.t = "rr" -> RR(m.rel, m.n, m.d, m.k, a)
    [] m.t = "tree" -> Tree(m.w, m.s, a)
Orders(m) == 2 .. (IF Top(m) < MaxA THEN Top(m) ELSE MaxA)

Init == phase = 0 /\ mech \in Mechs
Next == phase = 0 /\ phase' = 1 /\ mech' = mech
Spec == Init /\ [][Next]_vars

HasM == phase = 1 /\ mech.t # "swor"
AtLeastOne == HasM => \A a \in Orders(mech) : RLeq(One, M(mech, a))
\* ln M_a is convex in a (and 0 at a = 1), hence the divergence increases.
LogConvex == HasM => \A a \in Orders(mech) :
  (/\ a + 1 \in Orders(mech)      \* 32-bit integers: small moments only
   /\ M(mech, a)[1] < 200 /\ M(mech, a)[2] < 200
   /\ M(mech, a + 1)[1] < 2000 /\ M(mech, a + 1)[2] < 200) =>
     LET prev == IF a = 2 THEN One ELSE M(mech, a - 1)
     IN RLeq(RMul(M(mech, a), M(mech, a)), RMul(prev, M(mech, a + 1)))
Sampling == (phase = 1 /\ mech.t = "pgauss") => \A a \in Orders(mech) :
  /\ RLeq(M(mech, a), Gauss(mech.w, a))
  /\ SubGauss(1, 1, mech.w, a) = Gauss(mech.w, a)
  /\ SubGauss(0, 1, mech.w, a) = One
MoreNoise == (phase = 1 /\ mech.t \in {"lap"} /\ mech.m > 1) =>
  \A a \in 2 .. 3 : RLeq(Laplace(mech.m - 1, a), M(mech, a))
\* what the depth of a tree means
DepthIsCover == (phase = 1 /\ mech.t = "tree") => \A n \in 1 .. 33 :
  Depth(n) = CHOOSE d \in {Cardinality(Blocks(n, i)) : i \in 1 .. n} :
               \A i \in 1 .. n : Cardinality(Blocks(n, i)) <= d
ChiPositive == (phase = 1 /\ mech.t = "swor") =>
  /\ ChiSigned(mech.w, 1) = 0
  /\ ChiSigned(mech.w, 2) = P(2, mech.w) - 1
  /\ \A l \in {2, 4, 6} : ChiSigned(mech.w, l) > 0

Emitted == phase = 0 => PrintT("@@ROW " \o ToJson(
   [mech |-> mech,
    orders |-> Orders(mech),
    moments |-> [a \in Orders(mech) |-> IF mech.t = "swor" THEN Zero ELSE M(mech, a)],
    terms |-> [a \in Orders(mech) |-> IF mech.t = "swor"
        THEN [i \in 2 .. a |-> SworTerm(mech.n, mech.d, mech.w, a, i)]
        ELSE [i \in 2 .. 2 |-> Zero]]]))
=============================================================================
