------------------------------ MODULE MCTesters ------------------------------
(* Statistics of the auditorium's property testers on small samples, exactly.*)
(*                                                                           *)
(* Samples are sequences of outcomes.  e^epsilon is the fraction Num / Den.  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS Outcomes, MaxSize, Ratios, MmdSize, EmitRows

SumOver(S, f(_)) == FoldSet(LAMBDA x, y : f(x) + y, 0, S)
Pos(x) == IF x > 0 THEN x ELSE 0
Count(s, o) == Cardinality({i \in DOMAIN s : s[i] = o})
Seqs(k) == [1 .. k -> Outcomes]
\* samples in sorted order: a histogram does not see the order
Sorted(k) == {s \in Seqs(k) : \A i \in 1 .. k - 1 : s[i] <= s[i + 1]}

VARIABLES what, s1, s2, ratio, g
vars == <<what, s1, s2, ratio, g>>
Init ==
  \/ /\ what = "histogram" /\ ratio \in Ratios /\ g = <<>>
     /\ \E k \in 1 .. MaxSize : s1 \in Sorted(k)
     /\ \E k \in 1 .. MaxSize : s2 \in Sorted(k)
  \/ /\ what = "mmd" /\ ratio = <<1, 1>> /\ g = <<>>
     /\ \E k \in 1 .. MmdSize : s1 \in Seqs(2 * k) /\ s2 \in Seqs(2 * k)
  \/ /\ what = "renyi" /\ ratio = <<1, 1>>
     /\ \E k \in 1 .. MaxSize : s1 \in Sorted(k)
     /\ \E k \in 1 .. MaxSize : s2 \in Sorted(k)
     /\ g \in [Outcomes -> {-1, 0, 1}]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- histogram
N1 == Len(s1)
N2 == Len(s2)
\* P1(o) - ratio P2(o), times Common
Common == N1 * N2 * ratio[2]
Gain(o) == Count(s1, o) * N2 * ratio[2] - Count(s2, o) * N1 * ratio[1]
Excess == SumOver(Outcomes, LAMBDA o : Pos(Gain(o)))
Hist == what = "histogram"
Bounded == Hist => 0 <= Excess /\ Excess <= Common
\* it is the most any event (or classifier) shows, and some event shows it
Dual == Hist => /\ \A S \in SUBSET Outcomes : SumOver(S, Gain) <= Excess
                /\ \E S \in SUBSET Outcomes : SumOver(S, Gain) = Excess
SameNothing == (Hist /\ \A o \in Outcomes : Count(s1, o) * N2 = Count(s2, o) * N1)
               => Excess = 0
\* merging outcomes shows no more
Merging == Hist => \A a, b \in Outcomes : a < b =>
  Pos(Gain(a) + Gain(b)) + SumOver(Outcomes \ {a, b}, LAMBDA o : Pos(Gain(o))) <= Excess

\* --------------------------------------------- maximum mean discrepancy
\* kernel: equal or not. First halves are paired with second halves.
K(x, y) == IF x = y THEN 1 ELSE 0
Half == N1 \div 2
H(i) == K(s1[i], s1[Half + i]) - 2 * K(s1[i], s2[i]) + K(s2[i], s2[Half + i])
MmdSum == SumOver(1 .. Half, H)
MmdSquares == SumOver(1 .. Half, LAMBDA i : H(i) * H(i))
MmdRange == what = "mmd" => /\ \A i \in 1 .. Half : H(i) \in -2 .. 2
                            /\ MmdSum * MmdSum <= Half * MmdSquares

\* ------------------------------------------------------------ Renyi, order 2
\* the model's output g is in {-1, 0, 1} times ln 2
Pow(e) == IF e = -2 THEN 1 ELSE IF e = -1 THEN 2 ELSE IF e = 0 THEN 4 ELSE IF e = 1 THEN 8 ELSE 16
\* means of 2^g over s1 and of 4^g over s2, times 4 and the sizes
T1 == SumOver(DOMAIN s1, LAMBDA i : Pow(g[s1[i]]))
T2 == SumOver(DOMAIN s2, LAMBDA i : Pow(2 * g[s2[i]]))
Support == \A o \in Outcomes : Count(s1, o) > 0 => Count(s2, o) > 0
RECURSIVE Prod(_)
Prod(S) == IF S = {} THEN 1 ELSE LET o == CHOOSE x \in S : TRUE IN Count(s2, o) * Prod(S \ {o})
Seen == {o \in Outcomes : Count(s2, o) > 0}
\* sum of p^2 / q, times N1^2 / N2 and the product of the counts of s2
PowerSum == SumOver(Seen, LAMBDA o : Count(s1, o) * Count(s1, o) * Prod(Seen \ {o}))
\* the variational value never exceeds the divergence of what was sampled
Variational == (what = "renyi" /\ Support) =>
  T1 * T1 * Prod(Seen) <= 4 * T2 * PowerSum

Emitted == EmitRows => PrintT("@@ROW " \o ToJson(
  IF Hist THEN [what |-> what, s1 |-> s1, s2 |-> s2, ratio |-> ratio,
                excess |-> Excess, common |-> Common]
  ELSE IF what = "mmd" THEN [what |-> what, s1 |-> s1, s2 |-> s2, half |-> Half,
                sum |-> MmdSum, squares |-> MmdSquares]
  ELSE [what |-> what, s1 |-> s1, s2 |-> s2, g |-> [i \in 1 .. Cardinality(Outcomes) |-> g[i - 1]],
        t1 |-> T1, t2 |-> T2]))
=============================================================================
