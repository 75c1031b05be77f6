------------------------------ MODULE MCCoreset ------------------------------
(* What private clustering releases of a leaf, and how centers are reported. *)
(*                                                                           *)
(* phase "leaf": a leaf holds points on a line (any line through the origin  *)
(* of a space), clipped to the radius R, whose sum is noised with z and      *)
(* divided by the noisy count; the quotient num / den is clipped again.      *)
(* phase "near": points of the plane are given to the nearest centers.       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS Far, R, N, Counts, Noises, Places, Labels, MaxCenters, EmitRows

Abs(x) == IF x < 0 THEN -x ELSE x
Clip(x) == IF x > R THEN R ELSE IF x < -R THEN -R ELSE x
SumOver(S, f(_)) == FoldSet(LAMBDA x, y : f(x) + y, 0, S)

VARIABLES phase, pts, cnt, z, centers, truth
vars == <<phase, pts, cnt, z, centers, truth>>
Lines == UNION {{f \in [1 .. k -> -Far .. Far] : \A i \in 1 .. k - 1 : f[i] <= f[i + 1]}
                : k \in 0 .. N}
\* a place is the number 3 * y + x of a point of a grid
Seqs(k) == [1 .. k -> Places]
Rising(f) == \A i \in DOMAIN f : i = 1 \/ f[i - 1] < f[i]
Init ==
  \/ /\ phase = "leaf" /\ pts \in Lines /\ cnt \in Counts /\ z \in Noises
     /\ centers = <<>> /\ truth = <<>>
  \/ /\ phase = "near" /\ \E k \in 1 .. N : pts \in Seqs(k)
     /\ \E k \in 1 .. MaxCenters : centers \in {f \in Seqs(k) : Rising(f)}
     /\ truth \in [DOMAIN pts -> Labels]
     /\ cnt = 1 /\ z = 0
\* a point leaves the leaf; the noise and the noisy count stay
Leave ==
  /\ phase = "leaf" /\ pts # <<>>
  /\ \E i \in DOMAIN pts : pts' = SubSeq(pts, 1, i - 1) \o SubSeq(pts, i + 1, Len(pts))
  /\ UNCHANGED <<phase, cnt, z, centers, truth>>
Next == Leave
Spec == Init /\ [][Next]_vars

Total(ps) == SumOver(DOMAIN ps, LAMBDA i : Clip(ps[i]))
Num == LET t == Total(pts) + z IN
       IF t > R * cnt THEN R * cnt ELSE IF t < -R * cnt THEN -R * cnt ELSE t
Inside == phase = "leaf" => Abs(Num) <= R * cnt
\* a point moves the sum by at most R
Sensitivity == [][phase = "leaf" => Abs(Total(pts) - Total(pts')) <= R]_vars
\* ... and the released sum by at most as much
Released == [][phase = "leaf" => Abs(Num - Num') <= R]_vars

Sq(x) == x * x
Dist(p, q) == Sq((p % 3) - (q % 3)) + Sq((p \div 3) - (q \div 3))
Nearest(p) == {j \in DOMAIN centers :
                \A i \in DOMAIN centers : Dist(p, centers[j]) <= Dist(p, centers[i])}
Best(p) == Dist(p, centers[CHOOSE j \in Nearest(p) : TRUE])
Loss == SumOver(DOMAIN pts, LAMBDA i : Best(pts[i]))
First(p) == CHOOSE j \in Nearest(p) : \A i \in Nearest(p) : j <= i
Cluster(i) == First(pts[i])
Pairs == {S \in SUBSET (DOMAIN pts) : Cardinality(S) = 2}
Count(P(_, _)) == Cardinality({S \in Pairs : \E i, j \in S : i < j /\ P(i, j)})
Together(i, j) == Cluster(i) = Cluster(j)
Alike(i, j) == truth[i] = truth[j]
TruePairs == Count(LAMBDA i, j : Alike(i, j))
FalsePairs == Count(LAMBDA i, j : ~Alike(i, j))
NonMatches == Count(LAMBDA i, j : Alike(i, j) /\ ~Together(i, j))
FalseMatches == Count(LAMBDA i, j : ~Alike(i, j) /\ Together(i, j))
\* the most points of a cluster with the same label
Dominant == SumOver({Cluster(i) : i \in DOMAIN pts}, LAMBDA c :
  LET n(l) == Cardinality({i \in DOMAIN pts : Cluster(i) = c /\ truth[i] = l})
  IN Max({n(l) : l \in Labels}))
Histogram == [c \in DOMAIN centers |-> [l \in 0 .. Max(Labels) |->
  Cardinality({i \in DOMAIN pts : Cluster(i) = c /\ truth[i] = l})]]
PairsAdd == phase = "near" => /\ TruePairs + FalsePairs = Cardinality(Pairs)
                              /\ NonMatches <= TruePairs /\ FalseMatches <= FalsePairs
                              /\ Dominant <= Len(pts)
                              /\ \A i \in DOMAIN pts : Nearest(pts[i]) # {}
Emitted == EmitRows => PrintT("@@ROW " \o ToJson(
  IF phase = "leaf"
  THEN [phase |-> phase, pts |-> pts, cnt |-> cnt, z |-> z, num |-> Num,
        total |-> Total(pts), radius |-> R]
  ELSE [phase |-> phase, pts |-> pts, centers |-> centers, truth |-> truth, loss |-> Loss,
        nearest |-> [i \in DOMAIN pts |-> Nearest(pts[i])],
        first |-> [i \in DOMAIN pts |-> First(pts[i])], hist |-> Histogram,
        tp |-> TruePairs, fp |-> FalsePairs, nm |-> NonMatches, fm |-> FalseMatches,
        dom |-> Dominant]))
=============================================================================
