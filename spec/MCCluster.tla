------------------------------ MODULE MCCluster ------------------------------
(* The prefix tree of private clustering, and what it charges each point.    *)
(*                                                                           *)
(* Point p hashes to code[p], whose binary digits (most significant first)   *)
(* are its hash.  Every count that is looked at is noised first: it becomes  *)
(* the number of points plus some noise.                                     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS N, Depth, Noise, Thresholds, Free, EmitRows

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Most(x, y) == IF x >= y THEN x ELSE y
Digit(c, l) == (c \div Pow2(Depth - l)) % 2
Prefix(c, l) == [i \in 1 .. l |-> Digit(c, i)]
Sorted == UNION {{f \in [1 .. k -> 0 .. Pow2(Depth) - 1] :
                   \A i \in 1 .. k - 1 : f[i] <= f[i + 1]} : k \in 0 .. N}

VARIABLES
  code,     \* hashes of the points
  br, mn,   \* a node branches from br on, and exists from mn on
  nu,       \* noise as a function of the true count (when not Free)
  asked,    \* every noised count: prefix, points, noisy value
  nodes,    \* prefix -> node of the tree
  todo,     \* nodes of the current level still to be considered
  level, phase
vars == <<code, br, mn, nu, asked, nodes, todo, level, phase>>
Node(pre, pts, cnt) == [prefix |-> pre, pts |-> pts, cnt |-> cnt]
Values(pts) == IF Free THEN {Cardinality(pts) + z : z \in Noise}
               ELSE {Cardinality(pts) + nu[Cardinality(pts)]}
Init ==
  /\ code \in Sorted
  /\ \E t \in Thresholds : br = t[1] /\ mn = t[2]
  /\ IF Free THEN nu = <<>> ELSE nu \in [0 .. Len(code) -> Noise]
  /\ asked = {} /\ nodes = {} /\ todo = {} /\ level = 0 /\ phase = "start"
Root ==
  /\ phase = "start" /\ phase' = "grow"
  /\ LET all == DOMAIN code IN \E c \in Values(all) :
       \* the root always stays, with a count of at least one
       /\ asked' = {Node(<<>>, all, c)}
       /\ nodes' = {Node(<<>>, all, Most(1, c))}
       /\ todo' = {<<>>}
  /\ UNCHANGED <<code, br, mn, nu, level>>
NodeAt(pre) == CHOOSE x \in nodes : x.prefix = pre
Half(pts, l, d) == {p \in pts : Digit(code[p], l) = d}
\* considers the nodes of a level one after the other
Consider ==
  /\ phase = "grow" /\ todo # {}
  /\ LET pre == CHOOSE x \in todo : TRUE
         x == NodeAt(pre)
     IN /\ todo' = todo \ {pre}
        /\ IF level < Depth /\ x.cnt >= br
           THEN LET p0 == Half(x.pts, level + 1, 0)
                    p1 == Half(x.pts, level + 1, 1)
                IN \E c0 \in Values(p0), c1 \in Values(p1) :
                     LET kids == {Node(Append(pre, 0), p0, c0), Node(Append(pre, 1), p1, c1)}
                     IN /\ asked' = asked \cup kids
                        /\ nodes' = nodes \cup {k \in kids : k.cnt >= mn}
           ELSE UNCHANGED <<asked, nodes>>
  /\ UNCHANGED <<code, br, mn, nu, level, phase>>
Deeper ==
  /\ phase = "grow" /\ todo = {}
  /\ LET next == {x.prefix : x \in {y \in nodes : Len(y.prefix) = level + 1}}
     IN IF next = {} THEN phase' = "done" /\ UNCHANGED <<todo, level>>
        ELSE todo' = next /\ level' = level + 1 /\ UNCHANGED phase
  /\ UNCHANGED <<code, br, mn, nu, asked, nodes>>
Next == Root \/ Consider \/ Deeper
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Leaves == {x \in nodes : ~ \E y \in nodes : Len(y.prefix) = Len(x.prefix) + 1
                                          /\ SubSeq(y.prefix, 1, Len(x.prefix)) = x.prefix}
Done == phase = "done"
Parent(x) == SubSeq(x.prefix, 1, Len(x.prefix) - 1)
\* a node holds exactly the points whose hash starts with its prefix
Hashed == \A x \in asked :
  x.pts = {p \in DOMAIN code : Prefix(code[p], Len(x.prefix)) = x.prefix}
OnePerLevel == \A x, y \in asked : x # y /\ Len(x.prefix) = Len(y.prefix) => x.pts \cap y.pts = {}
OnePrefix == \A x, y \in asked : x.prefix = y.prefix => x = y
Kept == \A x \in nodes : x.cnt >= 1 /\ (x.prefix # <<>> =>
          /\ x.cnt >= mn
          /\ \E y \in nodes : y.prefix = Parent(x) /\ y.cnt >= br)
Branched == Done => \A x \in nodes :
  x.cnt >= br /\ Len(x.prefix) < Depth =>
    \A d \in {0, 1} : \E y \in asked : y.prefix = Append(x.prefix, d)
\* a point is in at most one leaf; it is in none only if its node was pruned
\* while the other half of its parent was kept
OneLeaf == Done => \A p \in DOMAIN code :
  LET mine == {x \in Leaves : p \in x.pts}
  IN /\ Cardinality(mine) <= 1
     /\ mine = {} =>
          \E x \in asked : /\ p \in x.pts /\ x.prefix # <<>> /\ x.cnt < mn
                           /\ \E y \in nodes : y.prefix # <<>> /\ Parent(y) = Parent(x)
\* --- the budget: a point takes part in at most Depth + 1 noised counts (one
\* per level) and in one noised sum (that of its leaf)
Charge(p) == Cardinality({x \in asked : p \in x.pts})
Budget == \A p \in DOMAIN code : Charge(p) <= Depth + 1
                                 /\ Cardinality({x \in Leaves : p \in x.pts}) <= 1
\* ... so without it every other noised count stays as it is, and with the
\* noisy counts unchanged the tree is the same: only noisy counts are looked at
Neighbour == \A p \in DOMAIN code :
  Cardinality({x \in asked : Cardinality(x.pts) # Cardinality(x.pts \ {p})}) <= Depth + 1
Halts == <>Done
Emitted == (EmitRows /\ Done) => PrintT("@@ROW " \o ToJson(
  [code |-> code, br |-> br, mn |-> mn, nu |-> [i \in 1 .. Len(code) + 1 |-> nu[i - 1]],
   depth |-> Depth, nodes |-> nodes, leaves |-> Leaves,
   asked |-> {[prefix |-> x.prefix, n |-> Cardinality(x.pts), cnt |-> x.cnt] : x \in asked}]))
=============================================================================
