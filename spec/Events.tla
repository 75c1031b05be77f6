------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* Terms describing differentially private events, and their meaning for   *)
(* the two accountants of the library.                                     *)
(*                                                                         *)
(* A term is a record with a kind field k:                                 *)
(*   noop | nonpriv | unsup                                                *)
(*   gauss  w        Gaussian; w = 1/sigma^2 as an integer, 0 = no noise   *)
(*   lap    p        Laplace;  p = name of the noise multiplier, "0" = none*)
(*   rr     p        randomized response; "0" = no noise, "id" = one bucket*)
(*                   or full noise (reveals nothing)                       *)
(*   mog    p        mixture of Gaussians; "0" = no noise, "id" = zero     *)
(*                   sensitivity                                           *)
(*   tree   p        single epoch tree aggregation; "0" = no noise         *)
(*   self   e n      n-fold self composition                               *)
(*   comp   es       composition of a sequence                             *)
(*   poisson q e     Poisson sampling with rate q ("0" never, "1" always)  *)
(*   swor   q e      sampling without replacement                          *)
(*   swr    q e      sampling with replacement                             *)
(*   rns    p e      repeat and select; p = name of (mean, shape)          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

ADD == "ADD_OR_REMOVE_ONE"
REP == "REPLACE_ONE"
SPC == "REPLACE_SPECIAL"
Relations == {ADD, REP, SPC}
RDP == "RDP"
PLD == "PLD"
Accountants == {RDP, PLD}

(***************************** structure ***********************************)

RECURSIVE WellCounted(_)
\* Every self-composition count inside the term is positive.
WellCounted(e) ==
  CASE e.k = "self" -> e.n >= 1 /\ WellCounted(e.e)
    [] e.k = "comp" -> \A i \in DOMAIN e.es : WellCounted(e.es[i])
    [] e.k \in {"poisson", "swor", "swr", "rns"} -> WellCounted(e.e)
    [] OTHER -> TRUE

RECURSIVE Broken(_)
\* Is there a parameter that no mechanism has: a negative noise multiplier
\* (w = -1), a rate, count or distribution out of range ("bad")?
Broken(e) ==
  CASE e.k = "gauss" -> e.w < 0
    [] e.k \in {"lap", "rr", "mog", "tree"} -> e.p = "bad"
    [] e.k = "self" -> Broken(e.e)
    [] e.k = "comp" -> \E i \in DOMAIN e.es : Broken(e.es[i])
    [] e.k \in {"poisson", "swor", "swr"} -> e.q = "bad" \/ Broken(e.e)
    [] e.k = "rns" -> e.p = "bad" \/ Broken(e.e)
    [] OTHER -> FALSE

RECURSIVE GaussNest(_)
\* A non-empty nest of compositions bottoming out in Gaussians.
GaussNest(e) ==
  CASE e.k = "gauss" -> TRUE
    [] e.k = "self" -> GaussNest(e.e)
    [] e.k = "comp" -> /\ Len(e.es) > 0
                       /\ \A i \in DOMAIN e.es : GaussNest(e.es[i])
    [] OTHER -> FALSE

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE HasZeroGauss(_)
HasZeroGauss(e) ==
  CASE e.k = "gauss" -> e.w = 0
    [] e.k = "self" -> HasZeroGauss(e.e)
    [] e.k = "comp" -> \E i \in DOMAIN e.es : HasZeroGauss(e.es[i])
    [] OTHER -> FALSE

RECURSIVE Weight(_)
\* Total precision sum(1/sigma^2) of a Gaussian nest: a sequence of Gaussian
\* queries on the same sample is one Gaussian query with this precision.
Weight(e) ==
  CASE e.k = "gauss" -> e.w
    [] e.k = "self" -> e.n * Weight(e.e)
    [] e.k = "comp" -> SumSeq([i \in DOMAIN e.es |-> Weight(e.es[i])])

(************************* the support matrix ******************************)

RECURSIVE Supports(_, _, _)
\* May accountant A under neighbouring relation R account for e?
Supports(A, R, e) ==
  CASE e.k \in {"noop", "nonpriv", "gauss", "lap"} -> TRUE
    [] e.k \in {"unsup", "swr"} -> FALSE
    [] e.k = "self" -> e.n >= 1 /\ Supports(A, R, e.e)
    [] e.k = "comp" -> \A i \in DOMAIN e.es : Supports(A, R, e.es[i])
    [] e.k = "rr" -> R \in {REP, SPC}
    [] e.k = "mog" -> A = PLD
    [] e.k = "tree" -> A = RDP /\ R = SPC
    [] e.k = "poisson" ->
         /\ R \in {ADD, SPC}
         /\ IF A = RDP THEN GaussNest(e.e) /\ WellCounted(e.e)
                       ELSE e.e.k \in {"gauss", "lap"}
    [] e.k = "swor" -> A = RDP /\ R = REP /\ GaussNest(e.e) /\ WellCounted(e.e)
    [] e.k = "rns" -> A = RDP /\ Supports(A, R, e.e)

(************************* symbolic privacy cost ***************************)
(* A cost is [np |-> non-private?, c |-> bag of atoms].  Gaussian atoms are *)
(* merged by adding precisions: n Gaussians of precision w cost exactly as *)
(* much as one of precision n*w.                                           *)

NoCost == [np |-> FALSE, c |-> <<>>]

AddAtom(cost, a, n) ==
  IF n = 0 THEN cost
  ELSE [cost EXCEPT !.c = IF a \in DOMAIN @ THEN [@ EXCEPT ![a] = @ + n]
                                            ELSE @ @@ (a :> n)]
SetNp(cost) == [cost EXCEPT !.np = TRUE]

RECURSIVE CostOf(_, _, _), CostSeq(_, _, _, _)
CostOf(e, n, cost) ==
  CASE e.k = "noop" -> cost
    [] e.k = "nonpriv" -> SetNp(cost)
    [] e.k = "gauss" -> IF e.w = 0 THEN SetNp(cost)
                        ELSE AddAtom(cost, [k |-> "gauss"], n * e.w)
    [] e.k \in {"lap", "rr", "mog", "tree"} ->
         IF e.p = "0" THEN SetNp(cost)
         ELSE IF e.p = "id" THEN cost
         ELSE AddAtom(cost, [k |-> e.k, p |-> e.p], n)
    [] e.k = "self" -> CostOf(e.e, n * e.n, cost)
    [] e.k = "comp" -> CostSeq(e.es, 1, n, cost)
    [] e.k = "poisson" ->
         IF e.q = "0" THEN cost
         ELSE IF e.e.k = "lap" THEN
           IF e.e.p = "0" THEN SetNp(cost)
           ELSE IF e.q = "1" THEN AddAtom(cost, [k |-> "lap", p |-> e.e.p], n)
           ELSE AddAtom(cost, [k |-> "plap", q |-> e.q, p |-> e.e.p], n)
         ELSE IF HasZeroGauss(e.e) THEN SetNp(cost)
         ELSE IF e.q = "1" THEN
           AddAtom(cost, [k |-> "gauss"], n * Weight(e.e))
         ELSE AddAtom(cost, [k |-> "pgauss", q |-> e.q, w |-> Weight(e.e)], n)
    [] e.k = "swor" ->
         IF e.q = "0" THEN cost
         ELSE IF HasZeroGauss(e.e) THEN SetNp(cost)
         ELSE IF e.q = "1" THEN
           AddAtom(cost, [k |-> "gauss"], n * Weight(e.e))
         ELSE AddAtom(cost, [k |-> "swor", q |-> e.q, w |-> Weight(e.e)], n)
    [] e.k = "rns" ->
         LET inner == CostOf(e.e, 1, NoCost)
         IN IF inner.np THEN SetNp(cost)
            ELSE AddAtom(cost, [k |-> "rns", p |-> e.p, c |-> inner.c], n)
CostSeq(es, i, n, cost) ==
  IF i > Len(es) THEN cost
  ELSE CostSeq(es, i + 1, n, CostOf(es[i], n, cost))

RECURSIVE CostList(_)
\* JSON-friendly form of a cost bag: a set of [a |-> atom, n |-> count].
CostList(c) ==
  { [a |-> IF a.k = "rns" THEN [k |-> "rns", p |-> a.p, c |-> CostList(a.c)]
           ELSE a,
     n |-> c[a]] : a \in DOMAIN c }
=============================================================================
