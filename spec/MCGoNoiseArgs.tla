--------------------------- MODULE MCGoNoiseArgs ---------------------------
(* What the noises of the Go library accept: every combination of classes of *)
(* arguments ("tiny" is positive and below 2^-50, "ok" one half).            *)
EXTENDS Integers, Sequences, Json, TLC
Reals == {"neg", "zero", "tiny", "ok", "one", "inf", "nan"}
Fns == {"addf", "addi", "threshold", "cif", "cii", "deltafor"}
Params ==
  { [fn |-> f, noise |-> n, l0 |-> l, linf |-> s, eps |-> e, delta |-> d,
     extra |-> x] :
      f \in Fns, n \in {"L", "G"}, l \in {-1, 0, 2},
      s \in {"neg", "zero", "ok", "inf", "nan"},
      e \in {"neg", "zero", "tiny", "ok", "inf", "nan"}, d \in Reals, x \in Reals }
Whole(p) == p.fn \in {"addi", "cii"}
\* the extra argument: a confidence level or a delta of its own
Extra(p) ==
  CASE p.fn \in {"cif", "cii"} -> p.extra \in {"tiny", "ok"}
    [] p.fn = "threshold" -> /\ p.extra \in {"tiny", "ok"}
                             \* the deltas together stay below one
                             /\ ~(p.extra = "ok" /\ p.delta = "ok")
    [] OTHER -> TRUE
Good(p) ==
  /\ p.l0 > 0 /\ p.linf = "ok" /\ p.eps \in {"ok", "one"}
  /\ IF p.noise = "L" THEN p.delta = "zero" ELSE p.delta \in {"tiny", "ok"}
  /\ Extra(p)
Asked(p) ==
  /\ Whole(p) => p.linf \notin {"inf", "nan"}
  /\ p.fn \in {"addf", "addi", "deltafor"} => p.extra = "ok"
  \* one argument out of order at a time, or two
  /\ (p.l0 > 0) \/ (p.linf = "ok") \/ (p.eps = "ok")
VARIABLE p
Init == p \in {q \in Params : Asked(q)} /\ PrintT("@@ROW " \o ToJson(
          [p |-> p, ok |-> Good(p)]))
Next == FALSE /\ UNCHANGED p
Spec == Init /\ [][Next]_p
=============================================================================
