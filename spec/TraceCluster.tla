----------------------------- MODULE TraceCluster ----------------------------
(* Recorded trees of the implementation (trees.json), judged by the laws of  *)
(* MCCluster: bits are the hashes of the points, nodes and leaves what the   *)
(* tree holds, asked every noised count [n, cnt] in no particular order.     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
Trees == JsonDeserialize("trees.json")
VARIABLES i, fault
Set(s) == {s[k] : k \in DOMAIN s}
\* number of places of a sequence with a property
Many(s, P(_)) == Cardinality({k \in DOMAIN s : P(s[k])})
Front1(s) == SubSeq(s, 1, Len(s) - 1)
Good(t) ==
  LET at(pre) == {k \in DOMAIN t.nodes : t.nodes[k].prefix = pre}
      the(pre) == t.nodes[CHOOSE k \in at(pre) : TRUE]
      half(x, d) == {p \in Set(x.pts) : t.bits[p][Len(x.prefix) + 1] = d}
      branching == {k \in DOMAIN t.nodes : /\ t.nodes[k].cnt >= t.br
                                           /\ Len(t.nodes[k].prefix) < t.depth}
      kids == {<<k, d>> : k \in branching, d \in {0, 1}}
      pre(kd) == Append(t.nodes[kd[1]].prefix, kd[2])
      size(kd) == Cardinality(half(t.nodes[kd[1]], kd[2]))
      kept == {kd \in kids : at(pre(kd)) # {}}
      pruned == kids \ kept
      parents == {Front1(t.nodes[k].prefix) : k \in {j \in DOMAIN t.nodes : t.nodes[j].prefix # <<>>}}
  IN CASE ~(\A k, j \in DOMAIN t.nodes : t.nodes[k].prefix = t.nodes[j].prefix => k = j) -> "duplicate"
       [] at(<<>>) = {} \/ Set(the(<<>>).pts) # DOMAIN t.bits -> "root"
       [] ~(\A k \in DOMAIN t.nodes : Len(t.nodes[k].pts) = Cardinality(Set(t.nodes[k].pts))) -> "repeated point"
       [] ~(\A k \in DOMAIN t.nodes : Len(t.nodes[k].prefix) <= t.depth) -> "depth"
       [] ~(\A k \in DOMAIN t.nodes : t.nodes[k].prefix # <<>> =>
              at(Front1(t.nodes[k].prefix)) # {}) -> "orphan"
       [] ~(\A k \in DOMAIN t.nodes : LET x == t.nodes[k] IN x.prefix # <<>> =>
              the(Front1(x.prefix)).cnt >= t.br) -> "branched too early"
       [] ~(\A k \in DOMAIN t.nodes : LET x == t.nodes[k] IN x.prefix # <<>> =>
              Set(x.pts) = half(the(Front1(x.prefix)), x.prefix[Len(x.prefix)])) -> "partition"
       [] ~(\A k \in DOMAIN t.nodes : LET x == t.nodes[k] IN
              x.cnt >= IF x.prefix = <<>> THEN 1 ELSE t.mn) -> "threshold"
       [] Set(t.leaves) # {t.nodes[k].prefix : k \in DOMAIN t.nodes} \ parents
          \/ Len(t.leaves) # Cardinality(Set(t.leaves)) -> "leaves"
       [] t.counted /\ Len(t.asked) # t.rootAsked + 2 * Cardinality(branching) -> "noised counts"
       [] t.counted /\ ~(\A a \in Set(t.asked) : a.cnt >= t.mn =>
              Many(t.asked, LAMBDA b : b = a)
                = Cardinality({kd \in kept : size(kd) = a.n /\ the(pre(kd)).cnt = a.cnt})
                  + (IF t.rootAsked = 1 /\ t.root = a THEN 1 ELSE 0)) -> "kept counts"
       [] t.counted /\ ~(\A n \in {a.n : a \in Set(t.asked)} \cup {size(kd) : kd \in pruned} :
              Many(t.asked, LAMBDA b : b.n = n /\ b.cnt < t.mn)
                = Cardinality({kd \in pruned : size(kd) = n})
                  + (IF t.rootAsked = 1 /\ t.root.n = n /\ t.root.cnt < t.mn THEN 1 ELSE 0))
            -> "pruned counts"
       [] \E p \in DOMAIN t.bits :
            Cardinality({k \in DOMAIN t.nodes : p \in Set(t.nodes[k].pts)}) > t.depth + 1 -> "budget"
       [] OTHER -> "none"
Init == i \in DOMAIN Trees /\ fault = Good(Trees[i])
Next == UNCHANGED <<i, fault>>
Spec == Init /\ [][Next]_<<i, fault>>
Judged == fault = "none" \/ PrintT("@@BAD " \o ToJson([id |-> i, fault |-> fault]))
=============================================================================
