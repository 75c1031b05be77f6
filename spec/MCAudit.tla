------------------------------- MODULE MCAudit -------------------------------
(* The auditorium's mechanisms, noise given.                                 *)
(*                                                                           *)
(* "svt"  sparse vector technique: queries are answered in order against one *)
(*        noisy threshold until `cut` of them were above it.                 *)
(* "mean" clipped sum divided by a count, either of which may be noised.     *)
(* "max"  the element with the largest noisy count.                          *)
(* Noise is a number of steps; how long a step is (the scale) is Scale below *)
(* in multiples of sensitivity / epsilon.                                    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS Values, Lo, Hi, MaxData, MaxQueries, MaxCut, Noises, Rhos, Threshold,
          Elements, EmitRows

Clip(x) == IF x > Hi THEN Hi ELSE IF x < Lo THEN Lo ELSE x
SumOver(S, f(_)) == FoldSet(LAMBDA x, y : f(x) + y, 0, S)
Total(d) == SumOver(DOMAIN d, LAMBDA i : Clip(d[i]))
Sens == Hi - Lo
Abs(x) == IF x < 0 THEN -x ELSE x

\* ------------------------------------------------------------------ queries
Queries(kind, d, n) ==
  [i \in 1 .. n |-> IF kind = "sum" THEN Total(d)
                    ELSE IF i < n THEN Clip(d[Len(d)]) ELSE Clip(d[Len(d) - 1])]

\* published scales of the query and threshold noise, <<num, den>> * sens / eps
Scale(v, c) ==
  CASE v = 1 -> [q |-> <<4 * c, 1>>, t |-> <<2, 1>>]
    [] v = 2 -> [q |-> <<4 * c, 1>>, t |-> <<2 * c, 1>>]
    [] v = 3 -> [q |-> <<2 * c, 1>>, t |-> <<2, 1>>]
    [] v = 4 -> [q |-> <<4, 3>>, t |-> <<4, 1>>]
    [] v = 5 -> [q |-> <<0, 1>>, t |-> <<2, 1>>]
    [] v = 6 -> [q |-> <<2, 1>>, t |-> <<2, 1>>]
\* what moving the threshold by sens and c queries by 2 sens costs, times 4:
\* the guarantee of the variants which are private
Cost4(v, c) == (4 * Scale(v, c).t[2]) \div Scale(v, c).t[1]
             + (8 * c * Scale(v, c).q[2]) \div Scale(v, c).q[1]
ASSUME \A c \in 1 .. 4 : /\ Cost4(1, c) = 4 /\ Cost4(2, c) <= 4
                         /\ Cost4(4, c) = 1 + 6 * c

VARIABLES what, kind, data, n, cut, nz, rho, i, cnt, out
vars == <<what, kind, data, n, cut, nz, rho, i, cnt, out>>
Datasets(k) == UNION {[1 .. m -> Values] : m \in k .. MaxData}
Init ==
  \/ /\ what = "svt" /\ kind \in {"sum", "reveal"}
     /\ data \in Datasets(IF kind = "sum" THEN 0 ELSE 2)
     /\ n \in 1 .. MaxQueries /\ cut \in 0 .. MaxCut
     /\ nz \in [1 .. n -> Noises] /\ rho \in Rhos
     /\ i = 1 /\ cnt = 0 /\ out = <<>>
  \/ /\ what = "mean" /\ kind \in {"none", "mean", "scale", "both"}
     /\ data \in Datasets(0) /\ nz \in [1 .. 2 -> Noises] /\ rho = 0
     /\ n = 1 /\ cut = 0 /\ i = 0 /\ cnt = 0 /\ out = <<>>
  \/ /\ what = "max" /\ kind = "argmax"
     /\ data \in UNION {[1 .. m -> 0 .. Elements - 1] : m \in 0 .. MaxData}
     /\ nz \in [0 .. Elements - 1 -> Noises] /\ rho = 0
     /\ n = Elements /\ cut = 0 /\ i = 0 /\ cnt = 0 /\ out = <<>>

Q == Queries(kind, data, n)
Noisy(j) == Q[j] + nz[j]
Level == Threshold + rho
Answer ==
  /\ what = "svt" /\ i <= n /\ i' = i + 1
  /\ IF cnt >= cut THEN out' = Append(out, "N") /\ cnt' = cnt
     ELSE IF Noisy(i) >= Level THEN out' = Append(out, "A") /\ cnt' = cnt + 1
     ELSE out' = Append(out, "B") /\ cnt' = cnt
  /\ UNCHANGED <<what, kind, data, n, cut, nz, rho>>
\* long cases, drawn outside
Given == JsonDeserialize("cases.json")
GivenInit == \E k \in DOMAIN Given : LET g == Given[k] IN
  /\ what = g.what /\ kind = g.kind /\ data = g.data /\ n = g.n /\ cut = g.cut
  /\ nz = (IF g.what = "max" THEN [e \in 0 .. g.n - 1 |-> g.nz[e + 1]] ELSE g.nz)
  /\ rho = g.rho /\ i = (IF g.what = "svt" THEN 1 ELSE 0) /\ cnt = 0 /\ out = <<>>
Next == Answer
Spec == Init /\ [][Next]_vars
GivenSpec == GivenInit /\ [][Next]_vars

Done == what = "svt" /\ i = n + 1
Times(x) == Cardinality({j \in DOMAIN out : out[j] = x})
CutOff == what = "svt" => /\ Times("A") = cnt /\ cnt <= cut
\* an answer is refused exactly after the last allowed positive one
Refused == what = "svt" => \A j \in DOMAIN out :
   (out[j] = "N") <=> (Cardinality({k \in 1 .. j - 1 : out[k] = "A"}) >= cut)
\* what was answered is never changed by what comes later
Ordered == [][SubSeq(out', 1, Len(out)) = out]_vars

\* the coupling behind the guarantee: when every query moves by at most the
\* sensitivity, moving the threshold by it and the noise of the queries that
\* were above by twice of it gives the same answers
RECURSIVE Run(_, _, _)
Run(qs, lvl, left) ==
  IF qs = <<>> THEN <<>>
  ELSE IF left = 0 THEN <<"N">> \o Run(Tail(qs), lvl, 0)
  ELSE IF qs[1] >= lvl THEN <<"A">> \o Run(Tail(qs), lvl, left - 1)
  ELSE <<"B">> \o Run(Tail(qs), lvl, left)
Coupled == Done =>
  /\ out = Run([j \in 1 .. n |-> Noisy(j)], Level, cut)
  /\ \A m \in [1 .. n -> {-Sens, 0, Sens}] :
       Run([j \in 1 .. n |-> Noisy(j) + m[j] + (IF out[j] = "A" THEN 2 * Sens ELSE 0)],
           Level + Sens, cut) = out

\* ------------------------------------------------------------ mean and max
SizeOf == Len(data)
CountMean == IF kind \in {"mean", "both"} THEN SizeOf + nz[1] ELSE SizeOf
CountScale == IF kind \in {"scale", "both"} THEN SizeOf + nz[1] ELSE SizeOf
\* share of the budget the sum gets, in halves
Share == IF kind = "none" THEN 2 ELSE 1
Clipped == what = "mean" =>
  \A d \in {data} : Total(d) <= Hi * Len(d) /\ Total(d) >= Lo * Len(d)
SumMoves == what = "mean" => \A j \in DOMAIN data : \A v \in Values :
  /\ Abs(Total([data EXCEPT ![j] = v]) - Total(data)) <= Sens
  /\ Abs(Clip(v)) <= IF Abs(Lo) > Abs(Hi) THEN Abs(Lo) ELSE Abs(Hi)

CountOf(e) == Cardinality({j \in DOMAIN data : data[j] = e})
Winners == {e \in 0 .. n - 1 : \A f \in 0 .. n - 1 :
             CountOf(f) + nz[f] <= CountOf(e) + nz[e]}
WinnerStays == what = "max" => \A w \in Winners : \A m \in [0 .. n - 1 -> {-1, 0, 1}] :
  \A f \in 0 .. n - 1 : f # w =>
     CountOf(f) + m[f] + nz[f] <= CountOf(w) + m[w] + nz[w] + 2

Emitted == EmitRows =>
  /\ (Done => PrintT("@@ROW " \o ToJson(
       [what |-> what, kind |-> kind, data |-> data, n |-> n, cut |-> cut,
        nz |-> nz, rho |-> rho, out |-> out, q |-> Q,
        scale |-> [v \in 1 .. 6 |-> Scale(v, cut)]])))
  /\ (what = "mean" => PrintT("@@ROW " \o ToJson(
       [what |-> what, kind |-> kind, data |-> data, nz |-> nz, sum |-> Total(data),
        mean |-> CountMean, scale |-> CountScale, share |-> Share])))
  /\ (what = "max" => PrintT("@@ROW " \o ToJson(
       [what |-> what, data |-> data, noise |-> [e \in 1 .. n |-> nz[e - 1]],
        winners |-> Winners])))
=============================================================================
