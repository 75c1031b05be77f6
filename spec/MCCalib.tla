------------------------------- MODULE MCCalib -------------------------------
(* Calibration: find a parameter whose privacy loss does not exceed a target *)
(* and that is as close as possible to exceeding it.                         *)
(*                                                                           *)
(* Parameters are the positions 0 .. 4 N, a quarter of a unit apart.  The    *)
(* gap (loss minus target) is monotone: it falls from positive to zero at    *)
(* position a and to negative at position b (dir = -1), or the mirror image  *)
(* (dir = 1: negative up to a, positive beyond b).  Brent's method is left   *)
(* open up to its contract, so the laws hold for every run it may take.      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS N, MaxTries, EmitRows
Top == 4 * N
Pos == 0 .. Top

Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* the nearest whole unit, halves to the even one
Round(x) == LET f == (x \div 4) * 4
                r == x % 4
            IN IF r < 2 THEN f ELSE IF r > 2 THEN f + 4
               ELSE IF f % 8 = 0 THEN f ELSE f + 4
Level(g, x) == IF g.dir = -1 THEN (IF x < g.a THEN 1 ELSE IF x < g.b THEN 0 ELSE -1)
               ELSE (IF x <= g.a THEN -1 ELSE IF x <= g.b THEN 0 ELSE 1)

Shapes == [dir : {-1, 1}, a : 0 .. Top + 1, b : 0 .. Top + 1]
Whole(g) == g.a % 4 = 0 /\ g.b % 4 = 0
Scenarios ==
  {s \in [g : {g \in Shapes : g.a <= g.b}, disc : BOOLEAN, tol : {1, 2, 4, 12},
          e1 : {4 * i : i \in 0 .. N}, e2 : {4 * i : i \in 0 .. N}, grown : BOOLEAN] :
     /\ s.e1 # s.e2 /\ (s.grown => s.e1 < s.e2)
     /\ (s.disc => s.tol >= 4 /\ Whole(s.g))
     /\ (~s.disc => s.tol < 12)}
F(s, x) == Level(s.g, IF s.disc THEN Round(x) ELSE x)

VARIABLES s, phase, lo, hi, tries, root, asked
vars == <<s, phase, lo, hi, tries, root, asked>>
Init == /\ s \in Scenarios
        /\ phase = IF s.grown THEN "grow" ELSE "brent"
        /\ lo = s.e1 /\ hi = s.e2 /\ tries = 0 /\ root = 0 /\ asked = {}
\* the bracket moves up, doubling, while its ends agree
Grow == /\ phase = "grow"
        /\ IF F(s, lo) * F(s, hi) <= 0
           THEN phase' = "brent" /\ UNCHANGED <<lo, hi, tries>>
           ELSE IF tries = MaxTries
           THEN phase' = "no bracket" /\ UNCHANGED <<lo, hi, tries>>
           ELSE /\ tries' = tries + 1 /\ UNCHANGED phase
                /\ lo' = hi /\ hi' = hi + 2 * (hi - lo)
        /\ asked' = asked \cup {lo, hi} /\ UNCHANGED <<s, root>>
Low == IF lo < hi THEN lo ELSE hi
High == IF lo < hi THEN hi ELSE lo
\* Brent: an exact zero, or a point whose sign changes within tol of it
Brent == /\ phase = "brent"
         /\ asked' = asked \cup {lo, hi}
         /\ IF F(s, lo) * F(s, hi) > 0
            THEN phase' = "no bracket" /\ UNCHANGED root
            ELSE \/ /\ \E r \in Low .. High :
                         /\ \/ F(s, r) = 0
                            \/ \E t \in Low .. High : Abs(t - r) <= s.tol /\ F(s, t) * F(s, r) < 0
                         /\ root' = r
                    /\ phase' = "settle"
                 \/ phase' = "bisect" /\ UNCHANGED root   \* did not converge
         /\ UNCHANGED <<s, lo, hi, tries>>
Least(x, y) == IF x < y THEN x ELSE y
Most(x, y) == IF x < y THEN y ELSE x
Settle == /\ phase = "settle"
          /\ LET up == Least(root + s.tol, High)
                 dn == Most(root - s.tol, Low)
             IN IF F(s, root) <= 0
                THEN phase' = "done" /\ asked' = asked \cup {root} /\ UNCHANGED root
                ELSE IF F(s, up) < 0
                THEN phase' = "done" /\ root' = up /\ asked' = asked \cup {root, up}
                ELSE IF F(s, dn) < 0
                THEN phase' = "done" /\ root' = dn /\ asked' = asked \cup {root, up, dn}
                ELSE phase' = "bisect" /\ asked' = asked \cup {root, up, dn} /\ UNCHANGED root
          /\ UNCHANGED <<s, lo, hi, tries>>
Bisect == /\ phase = "bisect"
          /\ LET mid == (Low + High) \div 2
             IN IF F(s, Low) = 0 THEN phase' = "done" /\ root' = Low /\ UNCHANGED <<lo, hi>>
                ELSE IF F(s, High) = 0 THEN phase' = "done" /\ root' = High /\ UNCHANGED <<lo, hi>>
                ELSE IF High - Low <= s.tol
                THEN phase' = "done" /\ root' = (IF F(s, Low) < 0 THEN Low ELSE High) /\ UNCHANGED <<lo, hi>>
                ELSE IF F(s, mid) = 0 THEN phase' = "done" /\ root' = mid /\ UNCHANGED <<lo, hi>>
                ELSE /\ UNCHANGED <<phase, root>>
                     /\ IF F(s, Low) * F(s, mid) < 0
                        THEN lo' = Low /\ hi' = mid
                        ELSE lo' = mid /\ hi' = High
          /\ asked' = asked \cup {lo, hi} /\ UNCHANGED <<s, tries>>
Next == Grow \/ Brent \/ Settle \/ Bisect
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Answer == IF s.disc THEN Round(root) ELSE root
\* -------------------------------------------------- the contract of an answer
Meets(g, x) == Level(g, x) <= 0
Exact(g, x) == Level(g, x) = 0
\* some parameter within tol misses the target: no better one farther than that
AtBoundary(g, x, tol) == \E y \in (x - tol - 1) .. (x + tol + 1) : Level(g, y) > 0
Good(g, x, tol) == Meets(g, x) /\ (Exact(g, x) \/ AtBoundary(g, x, tol))

Sound == phase = "done" => Meets(s.g, Answer)
Near == phase = "done" => Good(s.g, Answer, s.tol)
Inside == ~s.grown => \A x \in asked : Least(s.e1, s.e2) <= x /\ x <= Most(s.e1, s.e2)
\* an error exactly when the ends of the interval agree
Refused == phase = "no bracket" =>
  \/ s.grown /\ tries = MaxTries
  \/ F(s, s.e1) * F(s, s.e2) > 0
Answers == phase = "done" /\ ~s.grown => F(s, s.e1) * F(s, s.e2) <= 0
Halts == <>(phase \in {"done", "no bracket"})

\* where the bracket that grows forever first has ends that disagree; beyond
\* Top the gap keeps its last sign
RECURSIVE Found(_, _, _, _)
Found(g, l, h, n) == IF Level(g, l) * Level(g, h) <= 0 THEN <<l, h>>
                     ELSE IF n = 0 THEN <<>> ELSE Found(g, h, h + 2 * (h - l), n - 1)
Emitted == (EmitRows /\ phase \in {"grow", "brent"} /\ tries = 0 /\ asked = {}) =>
  PrintT("@@ROW " \o ToJson(
    [g |-> s.g, disc |-> s.disc, tol |-> s.tol, e1 |-> s.e1, e2 |-> s.e2, grown |-> s.grown,
     bracket |-> IF s.grown THEN Found(s.g, s.e1, s.e2, 12)
                 ELSE IF F(s, s.e1) * F(s, s.e2) > 0 THEN <<>>
                 ELSE <<Least(s.e1, s.e2), Most(s.e1, s.e2)>>,
     good |-> {x \in Pos : (s.disc => x % 4 = 0) /\ Good(s.g, x, s.tol)}]))
=============================================================================
