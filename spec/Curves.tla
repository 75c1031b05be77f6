------------------------------- MODULE Curves --------------------------------
(***************************************************************************)
(* Laws of privacy curves.                                                 *)
(*                                                                         *)
(* A recorded curve is a table of named integer series sampled at common   *)
(* points x (all quantised by the recorder with a stated resolution), and  *)
(* a list of laws it must satisfy. Every law allows `slack` units of the   *)
(* quantisation.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Idx(s) == 1 .. Len(s)
\* a never exceeds b
LawLeq(c, l) == \A i \in Idx(c.s[l.a]) : c.s[l.a][i] <= c.s[l.b][i] + l.slack
\* a and b agree
LawEq(c, l) == \A i \in Idx(c.s[l.a]) :
  /\ c.s[l.a][i] <= c.s[l.b][i] + l.slack
  /\ c.s[l.b][i] <= c.s[l.a][i] + l.slack
\* a is non-increasing / non-decreasing along x (x ascends)
LawNonInc(c, l) == \A i \in 1 .. (Len(c.s[l.a]) - 1) :
  c.s[l.a][i + 1] <= c.s[l.a][i] + l.slack
LawNonDec(c, l) == \A i \in 1 .. (Len(c.s[l.a]) - 1) :
  c.s[l.a][i] <= c.s[l.a][i + 1] + l.slack
\* a at one point never exceeds b at the previous one: a is at most one step
\* of the grid to the right of b
LawShift(c, l) == \A i \in 2 .. Len(c.s[l.a]) :
  c.s[l.a][i] <= c.s[l.b][i - 1] + l.slack
\* a lies in [lo, hi]
LawRange(c, l) == \A i \in Idx(c.s[l.a]) : l.lo <= c.s[l.a][i] /\ c.s[l.a][i] <= l.hi
\* slopes of a with respect to x are non-decreasing; x strictly ascending
LawConvex(c, l) == \A i \in 1 .. (Len(c.s[l.a]) - 2) :
  LET x == c.s[l.b]
      y == c.s[l.a]
  IN (y[i + 1] - y[i] - l.slack) * (x[i + 2] - x[i + 1])
       <= (y[i + 2] - y[i + 1] + l.slack) * (x[i + 1] - x[i])
\* a = epsilon as a function of the target b; c = delta at that epsilon.
\* The answer meets the target it was asked for.
LawMeets(c, l) == \A i \in Idx(c.s[l.a]) : c.s[l.a][i] <= c.s[l.b][i] + l.slack

Holds(c, l) ==
  CASE l.law = "leq" -> LawLeq(c, l)
    [] l.law = "eq" -> LawEq(c, l)
    [] l.law = "noninc" -> LawNonInc(c, l)
    [] l.law = "nondec" -> LawNonDec(c, l)
    [] l.law = "shift" -> LawShift(c, l)
    [] l.law = "range" -> LawRange(c, l)
    [] l.law = "convex" -> LawConvex(c, l)
    [] l.law = "meets" -> LawMeets(c, l)
\* the first point at which a law fails, for the report
FirstBad(c, l) ==
  LET n == Len(c.s[l.a])
      Pre(k) == [c EXCEPT !.s = [name \in DOMAIN c.s |-> SubSeq(c.s[name], 1, k)]]
  IN CHOOSE k \in 1 .. n : ~Holds(Pre(k), l) /\ \A m \in 1 .. (k - 1) : Holds(Pre(m), l)
=============================================================================
