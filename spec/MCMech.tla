------------------------------- MODULE MCMech --------------------------------
(* Mechanisms as pairs of output distributions, with and without Poisson     *)
(* subsampling, in exact integer arithmetic.  a is the distribution of the   *)
(* noise alone, b the one shifted by the sensitivity, on outcomes t = 0 .. s *)
(* (the ends stand for everything beyond).  e^epsilon is the rational u/v.   *)
(*                                                                           *)
(*   ADD     upper = a                     lower = (1 - q) a + q b           *)
(*   REMOVE  upper = (1 - q) b + q a       lower = b                         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS MaxMS, D, EmitRows

Bigger(x, y) == IF x > y THEN x ELSE y
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
SumOver(S, f(_)) == MapThenSumSet(f, S)

(* discrete Laplace with parameter m ln 2 and sensitivity s *)
DLap(m, s) ==
  LET mu(t) == IF t = 0 THEN Pow(2, m * s)
               ELSE IF t = s THEN 1
               ELSE (Pow(2, m) - 1) * Pow(2, m * (s - 1 - t))
  IN [kind |-> "dlap", m |-> m, s |-> s,
      a |-> [t \in 1 .. s + 1 |-> mu(t - 1)],
      b |-> [t \in 1 .. s + 1 |-> mu(s + 1 - t)],
      den |-> (Pow(2, m) + 1) * Pow(2, m * (s - 1))]
(* randomized response with p = n/d over k buckets; the outcomes besides the
   two inputs are lumped *)
RR(n, d, k, one) ==
  IF one
  THEN [kind |-> "rr", n |-> n, d |-> d, k |-> k, rel |-> "one",
        a |-> <<d * k - n * (k - 1), (k - 2) * n, n>>,
        b |-> <<n, (k - 2) * n, d * k - n * (k - 1)>>, den |-> d * k]
  ELSE [kind |-> "rr", n |-> n, d |-> d, k |-> k, rel |-> "special",
        a |-> <<d * k - n * (k - 1), (k - 1) * n>>,
        b |-> <<d, (k - 1) * d>>, den |-> d * k]
RECURSIVE Parts(_, _)
Parts(n, s) == IF n = 1 THEN {<<s>>}
               ELSE UNION {{<<k>> \o t : t \in Parts(n - 1, s - k)} : k \in 0 .. s}
AnyPair(x, y) == [kind |-> "any", a |-> x, b |-> y, den |-> D]
Mechs == {DLap(m, s) : m \in 1 .. 3, s \in 1 .. 5}
         \cup {RR(n, d, k, one) : n \in {1, 2, 3}, d \in {4}, k \in 2 .. 4, one \in BOOLEAN}
         \cup {AnyPair(x, y) : x \in Parts(3, D), y \in Parts(3, D)}
Ok(mech) == mech.kind # "dlap" \/ mech.m * mech.s <= MaxMS
Rates == {<<1, 1>>, <<1, 2>>, <<1, 4>>, <<3, 4>>, <<1, 3>>, <<1, 16>>}
Dirs == {"ADD", "REMOVE"}
Eps == << <<1, 8>>, <<1, 3>>, <<1, 2>>, <<3, 4>>, <<7, 8>>, <<1, 1>>, <<9, 8>>,
          <<4, 3>>, <<3, 2>>, <<2, 1>>, <<3, 1>>, <<4, 1>>, <<6, 1>>, <<8, 1>> >>

Sub(mech, n, d, dir) ==
  LET I == DOMAIN mech.a
  IN IF dir = "ADD"
     THEN [up |-> [t \in I |-> d * mech.a[t]],
           lo |-> [t \in I |-> (d - n) * mech.a[t] + n * mech.b[t]], den |-> d * mech.den]
     ELSE [up |-> [t \in I |-> (d - n) * mech.b[t] + n * mech.a[t]],
           lo |-> [t \in I |-> d * mech.b[t]], den |-> d * mech.den]
\* delta at ln(u/v), as <<numerator, denominator>>
Hs(p, u, v) == << SumOver(DOMAIN p.up, LAMBDA t : Bigger(0, v * p.up[t] - u * p.lo[t])),
                  v * p.den >>
Base(mech) == [up |-> mech.a, lo |-> mech.b, den |-> mech.den]
Leq(x, y) == x[1] * y[2] <= y[1] * x[2]

VARIABLES mech, q, phase
vars == <<mech, q, phase>>
Init == phase = 0 /\ mech \in {x \in Mechs : Ok(x)} /\ q \in Rates
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED <<mech, q>>
Spec == Init /\ [][Next]_vars

At(dir, e) == Hs(Sub(mech, q[1], q[2], dir), e[1], e[2])
E(i) == Eps[i]
EI == DOMAIN Eps
(* Privacy amplification by subsampling, exactly. *)
RemoveLaw == phase = 1 => \A i \in EI :
  LET u == E(i)[1]  v == E(i)[2]  n == q[1]  d == q[2]
      top == u * d - v * (d - n)
  IN IF top > 0
     THEN LET h == Hs(Base(mech), top, v * n)
          IN At("REMOVE", E(i))[1] = h[1]    \* n H / (d v n) = X / (v d)
     ELSE At("REMOVE", E(i))[1] = (v - u) * d * mech.den
AddLaw == phase = 1 => \A i \in EI :
  LET u == E(i)[1]  v == E(i)[2]  n == q[1]  d == q[2]
      rest == v * d - u * (d - n)
  IN IF rest > 0
     THEN LET h == Hs(Base(mech), u * n, rest)
          IN At("ADD", E(i))[1] = h[1]       \* rest H / (v d rest) = X / (v d)
     ELSE At("ADD", E(i))[1] = 0
\* A rate of one is no sampling, in either direction.
RateOne == phase = 1 /\ q = <<1, 1>> => \A i \in EI, dir \in Dirs :
  At(dir, E(i))[1] = Hs(IF dir = "ADD" THEN Base(mech) ELSE
     [up |-> mech.a, lo |-> mech.b, den |-> mech.den], E(i)[1], E(i)[2])[1]
\* Sampling less never costs more (epsilon at least zero).
RateMonotone == phase = 1 => \A i \in EI, dir \in Dirs, r \in Rates :
  (E(i)[1] >= E(i)[2] /\ r[1] * q[2] <= q[1] * r[2]) =>
    Hs(Sub(mech, r[1], r[2], dir), E(i)[1], E(i)[2])[1] * q[2]
      <= At(dir, E(i))[1] * r[2]
\* The loss of a discrete Laplace never grows with the outcome, sampled or not.
MonotoneLoss == phase = 1 /\ mech.kind = "dlap" => \A dir \in Dirs :
  LET p == Sub(mech, q[1], q[2], dir)
  IN \A t \in 1 .. mech.s : p.up[t] * p.lo[t + 1] >= p.up[t + 1] * p.lo[t]
\* Without sampling its two directions cost the same.
Symmetric == phase = 1 /\ mech.kind = "dlap" => \A i \in EI :
  Hs(Base(mech), E(i)[1], E(i)[2])[1]
  = Hs([up |-> mech.b, lo |-> mech.a, den |-> mech.den], E(i)[1], E(i)[2])[1]
\* More noise never costs more.
MoreNoise == phase = 1 /\ mech.kind = "dlap" /\ mech.m > 1 => \A i \in EI, dir \in Dirs :
  (E(i)[1] >= E(i)[2]) =>
    Leq(Hs(Sub(DLap(mech.m - 1, mech.s), q[1], q[2], dir), E(i)[1], E(i)[2]), At(dir, E(i)))
\* The largest outcome whose loss is at least ln(u/v): 0 .. s, -1 when none.
InvLoss(p, u, v) ==
  LET S == {t \in DOMAIN p.up : v * p.up[t] >= u * p.lo[t]}
  IN IF S = {} THEN -1 ELSE (CHOOSE t \in S : \A r \in S : r <= t) - 1
\* ... and the losses up to it are exactly the ones the divergence counts
Galois == phase = 1 /\ mech.kind = "dlap" => \A i \in EI, dir \in Dirs :
  LET p == Sub(mech, q[1], q[2], dir)
      x == InvLoss(p, E(i)[1], E(i)[2])
      A == SumOver({t \in DOMAIN p.up : t <= x + 1}, LAMBDA t : p.up[t])
      B == SumOver({t \in DOMAIN p.up : t <= x + 1}, LAMBDA t : p.lo[t])
  IN E(i)[2] * A - E(i)[1] * B = At(dir, E(i))[1]

Emitted == (EmitRows /\ phase = 0 /\ mech.kind # "any") => PrintT("@@ROW " \o ToJson(
  [mech |-> mech, q |-> q, eps |-> Eps,
   dirs |-> [dir \in Dirs |->
     LET p == Sub(mech, q[1], q[2], dir)
     IN [up |-> p.up, lo |-> p.lo, den |-> p.den,
         hs |-> [i \in EI |-> Hs(p, E(i)[1], E(i)[2])],
         inv |-> [i \in EI |-> InvLoss(p, E(i)[1], E(i)[2])]]]]))
=============================================================================
