--------------------------- MODULE MCGoPartition ---------------------------
(* Walks up the number of ids until the partition is certain to be kept.     *)
EXTENDS GoPartition, Json, TLC
CONSTANTS Deltas, Most

Ratios == JsonDeserialize("ratios.json")
VARIABLES num, den, delta, n, lo, hi
vars == <<num, den, delta, n, lo, hi>>
Init == /\ \E r \in 1..Len(Ratios) : num = Ratios[r][1] /\ den = Ratios[r][2]
        /\ delta \in Deltas
        /\ n = 0 /\ lo = 0 /\ hi = 0
        /\ PrintT("@@ROW " \o ToJson([r |-> <<num, den>>, delta |-> delta,
                    n |-> 0, lo |-> 0, hi |-> 0]))
Next == /\ n < Most /\ lo < S
        /\ n' = n + 1
        /\ lo' = StepLo(lo, num, den, delta)
        /\ hi' = StepHi(hi, num, den, delta)
        /\ PrintT("@@ROW " \o ToJson([r |-> <<num, den>>, delta |-> delta,
                    n |-> n', lo |-> lo', hi |-> hi']))
        /\ UNCHANGED <<num, den, delta>>
Spec == Init /\ [][Next]_vars

Ordered == lo <= hi /\ hi <= S
Grows == [][lo' >= lo /\ hi' >= hi]_vars
\* the chances are private, and no larger ones would be
Dp == [][Private(lo, lo', num, den, delta) /\ Private(hi, hi', num, den, delta)]_vars
Best == [][ lo' = S \/ ~Private(lo, lo' + 3 * Slack(num, den), num, den, delta) ]_vars
=============================================================================
