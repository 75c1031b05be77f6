------------------------------- MODULE MCSearch ------------------------------
(* Inverting a monotone function by growing a guess and bisecting.           *)
(*                                                                           *)
(* Positions are 0 .. Top (the harness maps them to numbers). `fits` says    *)
(* where the function is at most the wanted value: from t on when it         *)
(* decreases, up to t when it increases.  A search over whole numbers stops  *)
(* at neighbours (unit apart), one over reals within tol.                    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS N, Fine, EmitRows
\* Fine positions to a unit; a power of two so that halving stays exact
Top == N * Fine
None == -1
Inf == 1000000
Least(x, y) == IF x < y THEN x ELSE y
Most(x, y) == IF x < y THEN y ELSE x

Units == {Fine * i : i \in 0 .. N}
Scenarios ==
  {s \in [inc : BOOLEAN, disc : BOOLEAN, tol : {1, 2, Fine},
          lb : {0, Fine, 2 * Fine}, ub : Units \cup {Inf}, guess : {0} \cup Units,
          t : {i * (Fine \div 2) : i \in 0 .. 2 * N + 2}] :
     /\ s.lb < s.ub /\ (s.disc => s.tol = Fine)
     /\ (s.disc /\ s.ub = Inf => s.guess # 0)
     \* an endless range needs a guess, and an end of the admissible part
     /\ (s.ub = Inf => s.guess > 0)}
Fits(s, x) == IF s.inc THEN x <= s.t ELSE x >= s.t
Step(s) == IF s.disc THEN Fine ELSE s.tol

VARIABLES s, phase, lo, hi, guess
vars == <<s, phase, lo, hi, guess>>
Init == /\ s \in Scenarios /\ phase = "start"
        /\ lo = s.lb /\ hi = s.ub
        /\ guess = IF s.guess = 0 THEN 0 ELSE Most(s.guess, s.lb)
Start == /\ phase = "start"
         /\ IF (s.inc /\ ~Fits(s, lo)) \/ (~s.inc /\ hi # Inf /\ ~Fits(s, hi))
            THEN phase' = "none"
            ELSE phase' = IF guess = 0 THEN "bisect" ELSE "grow"
         /\ UNCHANGED <<s, lo, hi, guess>>
Onward(x) == IF s.inc THEN Fits(s, x) ELSE ~Fits(s, x)
Grow == /\ phase = "grow"
        /\ IF guess < hi /\ Onward(guess)
           THEN lo' = guess /\ guess' = 2 * guess /\ UNCHANGED <<hi, phase>>
           ELSE hi' = Least(hi, guess) /\ phase' = "bisect" /\ UNCHANGED <<lo, guess>>
        /\ UNCHANGED s
Mid == IF s.disc THEN ((lo + hi) \div (2 * Fine)) * Fine ELSE (lo + hi) \div 2
Bisect == /\ phase = "bisect"
          /\ IF hi - lo <= Step(s) THEN phase' = "done" /\ UNCHANGED <<lo, hi>>
             ELSE /\ UNCHANGED phase
                  /\ IF Onward(Mid) THEN lo' = Mid /\ hi' = hi ELSE hi' = Mid /\ lo' = lo
          /\ UNCHANGED <<s, guess>>
Next == Start \/ Grow \/ Bisect
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Answer == IF s.inc THEN lo ELSE hi

\* ------------------------------------------------------------- the contract
InRange(s0, x) == s0.lb <= x /\ x <= s0.ub
\* no admissible x better than the answer by more than tol
Good(s0, x) ==
  /\ InRange(s0, x) /\ Fits(s0, x)
  /\ IF s0.inc THEN Least(s0.t, s0.ub) - x <= Step(s0) ELSE x - Most(s0.t, s0.lb) <= Step(s0)
Nothing(s0) == IF s0.inc THEN ~Fits(s0, s0.lb) ELSE s0.ub # Inf /\ ~Fits(s0, s0.ub)
Sound == phase = "done" => Good(s, Answer)
Absent == phase = "none" => Nothing(s)
Present == phase = "done" => ~Nothing(s)
\* on the way: the answer is between lo and hi
Bracketed == phase = "bisect" =>
  IF s.inc THEN Fits(s, lo) /\ (hi >= s.ub \/ ~Fits(s, hi))
  ELSE Fits(s, hi) /\ (lo <= s.lb \/ ~Fits(s, lo))
Halts == <>(phase \in {"done", "none"})
Emitted == (EmitRows /\ phase = "start") => PrintT("@@ROW " \o ToJson(
  [s |-> s, nothing |-> Nothing(s),
   good |-> {x \in 0 .. (2 * Top) : Good(s, x) /\ (s.disc => x % Fine = 0)}]))
=============================================================================
