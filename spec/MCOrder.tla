------------------------------- MODULE MCOrder -------------------------------
(* The order on histories every accountant has to respect: a step less, more *)
(* noise or a lower sampling rate never reveal more.  As a finite instance a *)
(* step tells a bit, truthfully with probability a/(a+b), on a record that   *)
(* takes part with probability rate/2; everything about it is a fraction.    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS Levels,      \* sequence of <<a, b>>, least noise first
          MaxSteps, Ratios, EmitRows
Rates == 1 .. 2        \* halves
Kinds == (DOMAIN Levels) \X Rates

VARIABLES h, ratio, last
vars == <<h, ratio, last>>
\* h: how often each kind of step was taken; last: what made it cheaper
Size(f) == FoldSet(LAMBDA k, n : f[k] + n, 0, Kinds)
Init == /\ h \in {f \in [Kinds -> 0 .. MaxSteps] : Size(f) <= MaxSteps}
        /\ ratio \in Ratios /\ last = <<>>
Moved(from, to) == [h EXCEPT ![from] = @ - 1, ![to] = @ + 1]
Drop(k) == h[k] > 0 /\ h' = [h EXCEPT ![k] = @ - 1]
Noisier(k) == h[k] > 0 /\ k[1] < Len(Levels) /\ h' = Moved(k, <<k[1] + 1, k[2]>>)
Rarer(k) == h[k] > 0 /\ k[2] = 2 /\ h' = Moved(k, <<k[1], 1>>)
Next == /\ last = <<>>
        /\ \E k \in Kinds : \/ Drop(k) /\ last' = <<"drop", k, h>>
                            \/ Noisier(k) /\ last' = <<"noisier", k, h>>
                            \/ Rarer(k) /\ last' = <<"rarer", k, h>>
        /\ UNCHANGED ratio
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- what it costs
\* chances, times Unit(k), of the two answers: with the record, without it
Unit(k) == 2 * (Levels[k[1]][1] + Levels[k[1]][2])
With(k, yes) == LET a == Levels[k[1]][1]
                    b == Levels[k[1]][2]
                IN IF yes THEN (2 - k[2]) * b + k[2] * a ELSE (2 - k[2]) * a + k[2] * b
Without(k, yes) == 2 * Levels[k[1]][IF yes THEN 2 ELSE 1]
\* one record per step, in any order
RECURSIVE Pairs(_, _)
\* bag of <<with, without>> products over all answers, as a function to counts
Pairs(f, S) ==
  IF S = {} THEN {<<1, 1, <<>>>>}
  ELSE LET k == CHOOSE x \in S : TRUE
       IN {<<p[1] * With(k, TRUE) ^ y * With(k, FALSE) ^ (f[k] - y),
             p[2] * Without(k, TRUE) ^ y * Without(k, FALSE) ^ (f[k] - y),
             Append(p[3], <<f[k], y>>)>> : p \in Pairs(f, S \ {k}), y \in 0 .. f[k]}
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Ways(cs) == FoldSet(LAMBDA i, n : n * (Fact(cs[i][1]) \div (Fact(cs[i][2]) * Fact(cs[i][1] - cs[i][2]))), 1, DOMAIN cs)
Used(f) == {k \in Kinds : f[k] > 0}
RECURSIVE Power(_, _)
Power(f, S) == IF S = {} THEN 1 ELSE LET k == CHOOSE x \in S : TRUE IN Unit(k) ^ f[k] * Power(f, S \ {k})
Total(f) == Power(f, Used(f))
Pos(x) == IF x > 0 THEN x ELSE 0
\* delta at e^epsilon = ratio, times Total, one way and the other
Remove(f) == FoldSet(LAMBDA p, n : n + Ways(p[3]) * Pos(p[1] - ratio * p[2]), 0, Pairs(f, Used(f)))
Add(f) == FoldSet(LAMBDA p, n : n + Ways(p[3]) * Pos(p[2] - ratio * p[1]), 0, Pairs(f, Used(f)))
Delta(f) == IF Remove(f) > Add(f) THEN Remove(f) ELSE Add(f)
\* second moments of the ratio, times Den2
RECURSIVE Num2(_, _), Den2(_, _)
Num2(f, S) == IF S = {} THEN 1 ELSE LET k == CHOOSE x \in S : TRUE IN
  (With(k, TRUE) ^ 2 * Without(k, FALSE) + With(k, FALSE) ^ 2 * Without(k, TRUE)) ^ f[k] * Num2(f, S \ {k})
Den2(f, S) == IF S = {} THEN 1 ELSE LET k == CHOOSE x \in S : TRUE IN
  (Unit(k) * Without(k, TRUE) * Without(k, FALSE)) ^ f[k] * Den2(f, S \ {k})

Chance == \A f \in {h} : Delta(f) >= 0 /\ Delta(f) <= Total(f)
Mass == FoldSet(LAMBDA p, n : n + Ways(p[3]) * p[1], 0, Pairs(h, Used(h))) = Total(h)
     /\ FoldSet(LAMBDA p, n : n + Ways(p[3]) * p[2], 0, Pairs(h, Used(h))) = Total(h)
\* cheaper histories reveal no more
Ordered == last # <<>> => LET before == last[3] IN Delta(h) * Total(before) <= Delta(before) * Total(h)
\* what an accountant concludes from the second moment covers the truth
Moment == Size(h) <= 2 =>
  4 * ratio * Remove(h) * Den2(h, Used(h)) <= Num2(h, Used(h)) * Total(h)
Nothing == Used(h) = {} => Delta(h) = 0
Steps(f) == [i \in DOMAIN Levels |-> [r \in Rates |-> f[<<i, r>>]]]
Emitted == EmitRows => PrintT("@@ROW " \o ToJson(
  IF last = <<>> THEN [kind |-> "cost", h |-> Steps(h), ratio |-> ratio, delta |-> Delta(h), total |-> Total(h)]
  ELSE [kind |-> "edge", h |-> Steps(last[3]), to |-> Steps(h), how |-> last[1]]))
=============================================================================
