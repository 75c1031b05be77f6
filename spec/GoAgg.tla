------------------------------- MODULE GoAgg -------------------------------
(* The aggregations of the Go library (go/dpagg) as one object system.       *)
(*                                                                           *)
(* An aggregation is a bag of clamped contributions with a life of its own:  *)
(*                                                                           *)
(*    "open" --add/merge-in--> "open" --result--> "done"                     *)
(*      |  \--merged away--> "merged"                                        *)
(*      \----serialised----> "sent" --serialised again--> "sent"             *)
(*                                                                           *)
(* Reading the bytes of a serialised object gives an open object with the    *)
(* same contributions and parameters. Whatever is not an arrow is refused    *)
(* and changes nothing. What reaches the noise is the sum (count, ...) of    *)
(* the clamped contributions together with the full sensitivity and with a   *)
(* share of the budget that adds up to the whole.                            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

NaNV == 100000         \* an added NaN
InfV == 200000         \* an added infinity, either sign

MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
AbsOf(x) == IF x < 0 THEN -x ELSE x
Clamp(x, l, u) == IF x > u THEN u ELSE IF x < l THEN l ELSE x

Seqs(k) == k.kind \in {"count", "part"}    \* adds are increments
Skips(k) == k.kind \in {"sumf", "mean", "var", "std", "quant"}

\* The contributions that count, clamped.
RECURSIVE Kept(_, _)
Kept(k, vs) ==
  IF vs = <<>> THEN <<>>
  ELSE LET v == Head(vs) IN
       IF Skips(k) /\ v = NaNV THEN Kept(k, Tail(vs))
       ELSE <<IF Seqs(k) THEN v ELSE Clamp(v, k.l, k.u)>> \o Kept(k, Tail(vs))

RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))

RECURSIVE SumDev(_, _, _)
SumDev(s, m, sq) ==
  IF s = <<>> THEN 0
  ELSE LET d == Head(s) - m IN (IF sq THEN d * d ELSE d) + SumDev(Tail(s), m, sq)

Mid(k) == (k.l + k.u) \div 2
Half(k) == k.u - Mid(k)

\* Noise calls: <<real?, value, l0, lInf, share, of>>: the call gets share/of
\* of epsilon and of delta.
Calls(k, vs) ==
  LET s == Kept(k, vs)
      n == Len(s)
      m == Mid(k)
      lin == MaxOf(AbsOf(k.l), AbsOf(k.u))
  IN CASE k.kind = "count" -> << <<0, SumOf(s), k.l0, 1, 1, 1>> >>
       [] k.kind = "sumi" -> << <<0, SumOf(s), k.l0, lin, 1, 1>> >>
       [] k.kind = "sumf" -> << <<1, SumOf(s), k.l0, lin, 1, 1>> >>
       [] k.kind = "mean" -> << <<0, n, k.l0, k.mcpp, 1, 2>>,
                                <<1, SumDev(s, m, FALSE), k.l0,
                                  k.mcpp * Half(k), 1, 2>> >>
       [] k.kind \in {"var", "std"} ->
                             << <<0, n, k.l0, k.mcpp, 1, 3>>,
                                <<1, SumDev(s, m, FALSE), k.l0,
                                  k.mcpp * Half(k), 1, 3>>,
                                <<1, SumDev(s, m, TRUE), k.l0,
                                  k.mcpp * Half(k) * Half(k), 1, 3>> >>
       [] OTHER -> <<>>

\* Quantiles without noise: values spread evenly over their leaf.
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Leaves(k) == Pow(k.b, k.h)
LeafOf(k, v) ==
  IF v = k.u THEN Leaves(k) - 1 ELSE ((v - k.l) * Leaves(k)) \div (k.u - k.l)
InLeaf(k, s, f) == Cardinality({i \in 1..Len(s) : LeafOf(k, s[i]) = f})
UpTo(k, s, f) == Cardinality({i \in 1..Len(s) : LeafOf(k, s[i]) <= f})
\* rank in 200ths, kept off the extremes
Rank(r) == MinOf(MaxOf(r, 1), 199)
\* value = l + (u - l) * num / den
Quantile(k, vs, r) ==
  LET s == Kept(k, vs)
      n == Len(s)
  IN IF n = 0 THEN <<Rank(r), 200>>
     ELSE LET f == CHOOSE x \in 0..(Leaves(k) - 1) :
                     /\ 200 * UpTo(k, s, x) >= Rank(r) * n
                     /\ \A y \in 0..(x - 1) : 200 * UpTo(k, s, y) < Rank(r) * n
              before == UpTo(k, s, f) - InLeaf(k, s, f)
              cnt == InLeaf(k, s, f)
          IN << f * 200 * cnt + Rank(r) * n - 200 * before,
                Leaves(k) * 200 * cnt >>

\* What a result is, given what the noise adds to whole (oi) and to real (of)
\* numbers: a fraction <<num, den>>; for "var": variance, count, mean.
Result(k, vs, oi, of, r) ==
  LET cs == Calls(k, vs)
      w == cs[1][2] + (IF cs[1][1] = 0 THEN oi ELSE of)
      c == MaxOf(1, cs[1][2] + oi)
      x == cs[2][2] + of
      y == cs[3][2] + of
      d == k.u - k.l
      mean == IF x + Mid(k) * c > k.u * c THEN <<k.u, 1>>
              ELSE IF x + Mid(k) * c < k.l * c THEN <<k.l, 1>>
              ELSE <<x + Mid(k) * c, c>>
      v == y * c - x * x
      var == IF v < 0 THEN <<0, 1>>
             ELSE IF 4 * v > d * d * c * c THEN <<d * d, 4>>
             ELSE <<v, c * c>>
  IN CASE k.kind \in {"count", "sumi", "sumf"} -> << <<w, 1>> >>
       [] k.kind = "mean" -> <<mean>>
       [] k.kind = "var" -> <<var, <<cs[1][2] + oi, 1>>, mean>>
       [] k.kind = "std" -> <<var>>
       [] k.kind = "quant" -> <<Quantile(k, vs, r)>>
       \* kept for sure, dropped for sure: k.hard ids suffice above the
       \* pre-threshold
       [] OTHER ->
            LET n == SumOf(vs) IN
            IF n < k.pre \/ n < 1 THEN << <<0, 1>> >>
            ELSE IF n - (k.pre - 1) >= k.hard THEN << <<1, 1>> >>
            ELSE <<>>

\* A confidence interval for what was returned, when the noise's own interval
\* reaches w to either side of every noised value; two fractions, <<>> where
\* the kind has none.
Interval(k, vs, w, oi, of) ==
  LET cs == Calls(k, vs)
      num == cs[1][2]
      z == num + (IF k.kind = "sumf" THEN of ELSE oi)
      a == IF k.l >= 0 THEN MaxOf(0, z - w) ELSE z - w
      b == IF k.l >= 0 THEN MaxOf(0, z + w) ELSE z + w
      \* of a mean: numerator and denominator
      nl == cs[2][2] + of - w
      nu == cs[2][2] + of + w
      dl == MaxOf(1, num + oi - w)
      du == MaxOf(1, num + oi + w)
      into(x, d) == IF x + Mid(k) * d > k.u * d THEN <<k.u, 1>>
                    ELSE IF x + Mid(k) * d < k.l * d THEN <<k.l, 1>>
                    ELSE <<x + Mid(k) * d, d>>
  IN CASE k.kind = "count" ->
            << <<MaxOf(0, num + oi - w), 1>>, <<MaxOf(0, num + oi + w), 1>> >>
       [] k.kind \in {"sumi", "sumf"} ->
            IF k.u <= 0 THEN << <<MinOf(0, a), 1>>, <<MinOf(0, b), 1>> >>
            ELSE << <<a, 1>>, <<b, 1>> >>
       [] k.kind = "mean" ->
            << into(nl, IF nl >= 0 THEN du ELSE dl),
               into(nu, IF nu >= 0 THEN dl ELSE du) >>
       [] OTHER -> <<>>

\* Which parameters an aggregation may be made with. Each is a class: a real
\* parameter is "neg", "zero", "tiny" (positive, below 2^-50), "ok" (inside
\* (0, 1)), "one", "inf" or "nan". A delta of one promises nothing, so that
\* whether it is refused is left open (see Open).
Fine == {"ok", "one"}
GoodNoise(k, p) ==
  /\ p.eps \in Fine
  /\ IF p.noise = "G" THEN p.delta \in {"ok", "tiny"} ELSE p.delta = "zero"
  /\ p.l0 > 0
GoodBounds(k, p) ==
  /\ p.lo # "nan" /\ p.up # "nan" /\ p.lo # "inf" /\ p.up # "inf"
  /\ p.lo # "-inf" /\ p.up # "-inf"
  /\ p.rel \in (IF k \in {"sumi", "sumf"} THEN {"lt", "eq"} ELSE {"lt"})
Open(k, p) == k \in {"mean", "var", "std"} /\ p.delta = "one"
Accepts(k, p) ==
  IF k = "part"
  THEN p.eps \in Fine \cup {"tiny"} /\ p.delta \in {"ok", "tiny"} /\ p.l0 > 0
       /\ p.pre >= 0
  ELSE /\ GoodNoise(k, p)
       /\ k # "count" => GoodBounds(k, p)
       /\ k \in {"mean", "var", "std", "quant"} => p.mcpp > 0
       /\ k = "quant" => p.h >= 0 /\ (p.b = 0 \/ p.b >= 2)
=============================================================================
