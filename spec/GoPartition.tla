---------------------------- MODULE GoPartition ----------------------------
(* The optimal selection of partitions (go/dpagg/select_partition.go): the   *)
(* chance of keeping a partition with n privacy ids, when a privacy id       *)
(* contributes to at most l0 partitions and each gets its share of the       *)
(* budget. With r = e^(epsilon / l0) a rational number and probabilities in  *)
(* units of 1/S, rounded down (lo) and up (hi).                              *)
EXTENDS Integers, Sequences

S == 16777216

RECURSIVE Least(_, _, _)
Least(a, b, c) == IF a <= b /\ a <= c THEN a ELSE IF b <= c THEN b ELSE c

Down(x, n, d) == (x * n) \div d
Up(x, n, d) == (x * n + d - 1) \div d
Zero(x) == IF x < 0 THEN 0 ELSE x

\* one more id: as much as differential privacy allows, in either direction
StepLo(p, n, d, delta) ==
  Least(Down(p, n, d) + delta, S - Up(Zero(S - p - delta), d, n), S)
StepHi(p, n, d, delta) ==
  Least(Up(p, n, d) + delta, S - Down(Zero(S - p - delta), d, n), S)

Slack(n, d) == n \div d + 2

\* What the definition of differential privacy asks of neighbouring chances p
\* (n ids) and q (n + 1 ids), both ways, up to the rounding.
Private(p, q, n, d, delta) ==
  /\ q <= Up(p, n, d) + delta + Slack(n, d)
  /\ S - p <= Up(S - q, n, d) + delta + Slack(n, d)
=============================================================================
