------------------------------ MODULE TraceAudit -----------------------------
(* Recorded evaluations of testers that train a model: which samples (by     *)
(* number) it was trained on, and which were judged under which label.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Rows == JsonDeserialize("audit.json")
VARIABLE k
Set(s) == {s[i] : i \in DOMAIN s}
Fresh(s, train, n) == /\ Cardinality(Set(s)) = Len(s)
                      /\ Set(s) \subseteq 1 .. n
                      /\ Set(s) \cap Set(train) = {}
\* the first distribution weighs den, the second num (e^epsilon = num / den)
Off(r) == (Len(r.zeros) + Len(r.ones)) * r.den - Len(r.zeros) * (r.num + r.den)
Laws(r) == <<
  [law |-> "train within samples", holds |->
     Set(r.train1) \subseteq 1 .. r.n1 /\ Set(r.train2) \subseteq 1 .. r.n2],
  [law |-> "judged on fresh samples", holds |->
     Fresh(r.zeros, r.train1, r.n1) /\ Fresh(r.ones, r.train2, r.n2)],
  [law |-> "weights", holds |-> ~r.weighted \/ (Off(r) < r.num + r.den /\ -Off(r) < r.num + r.den)],
  [law |-> "correct", holds |-> ~r.weighted \/
     r.correct = Len(SelectSeq(r.zeros, LAMBDA x : x \notin Set(r.say1)))
               + Len(SelectSeq(r.ones, LAMBDA x : x \in Set(r.say2)))] >>
Init == k = 0
Next == /\ k < Len(Rows) /\ k' = k + 1
        /\ \A j \in DOMAIN Laws(Rows[k']) : Laws(Rows[k'])[j].holds
             \/ PrintT("@@BAD " \o ToJson([id |-> k', law |-> Laws(Rows[k'])[j].law]))
Spec == Init /\ [][Next]_k
=============================================================================
