------------------------------ MODULE MCPldOps -------------------------------
(***************************************************************************)
(* Histories of operations on privacy loss distributions.  The state is a  *)
(* working distribution; operations compose it with others or with itself, *)
(* with or without tail truncation.  slack counts how many units of the    *)
(* truncation bound the implementation may have moved.                     *)
(***************************************************************************)
EXTENDS Pld, Json
CONSTANTS Den, Depth, MaxDen, EmitRows, Full
VARIABLES cur, log, slack
vars == <<cur, log, slack>>

RECURSIVE Parts(_, _)
Parts(n, s) == IF n = 1 THEN {<<s>>}
               ELSE UNION {{<<k>> \o t : t \in Parts(n - 1, s - k)} : k \in 0 .. s}
MkPmf(t) == \* t = <<inf, m(-2), m(-1), m(0), m(1), m(2)>>; zero cells are left out
  LET cells == {l \in -2 .. 2 : t[l + 4] > 0}
  IN [m |-> [l \in cells |-> t[l + 4]], inf |-> t[1], den |-> Den]
Bases == {f \in {MkPmf(t) : t \in Parts(6, Den)} : Full \/ Valid(f)}
Partner == { [m |-> (0 :> Den), inf |-> 0, den |-> Den],
             [m |-> (1 :> Den - 1 @@ -1 :> 1), inf |-> 0, den |-> Den],
             [m |-> (1 :> 1 @@ 0 :> Den - 2), inf |-> 1, den |-> Den],
             [m |-> (2 :> Den - 2 @@ 0 :> 1 @@ -1 :> 1), inf |-> 0, den |-> Den],
             [m |-> (1 :> Den), inf |-> 0, den |-> Den],
             [m |-> <<>>, inf |-> Den, den |-> Den] }

Rows(f) == {[l |-> l, n |-> f.m[l]] : l \in DOMAIN f.m}
Obj(f) == [m |-> Rows(f), inf |-> f.inf, den |-> f.den]

Init == /\ slack = 0
        /\ \E f \in Bases : cur = f /\ log = <<[o |-> "base", f |-> Obj(f), n |-> 0, t |-> FALSE]>>
DoCompose(g, t, side) ==
  /\ cur.den * g.den <= MaxDen
  /\ cur' = Compose(cur, g)
  /\ slack' = slack + (IF t THEN 1 ELSE 0)
  /\ log' = Append(log, [o |-> side, f |-> Obj(g), n |-> 0, t |-> t])
DoSelf(n, t) ==
  /\ Pow(cur.den, n) <= MaxDen
  /\ cur' = SelfCompose(cur, n)
  /\ slack' = n * slack + (IF t THEN 2 ELSE 0)
  /\ log' = Append(log, [o |-> "self", f |-> Obj(Identity), n |-> n, t |-> t])
Next ==
  /\ Len(log) <= Depth
  /\ \E t \in BOOLEAN :
       \/ \E g \in Partner, s \in {"left", "right"} : DoCompose(g, t, s)
       \/ \E n \in {1, 2, 3} : DoSelf(n, t)
Spec == Init /\ [][Next]_vars

MassOne == Mass(cur) = cur.den
StaysValid == Valid(cur) \/ Full
Commutes == \A g \in Partner : cur.den * g.den <= MaxDen => Compose(cur, g) = Compose(g, cur)
\* Composing never helps: for every epsilon >= 0 delta stays or grows.
NeverHelps == [][~Full => \A j \in 0 .. 2 : HsLeq(cur, j, cur', j)]_vars
\* Queries: delta lies in [0,1], falls with epsilon, and epsilon-for-delta is
\* its inverse.
QueryLaws ==
  /\ \A j \in -3 .. 3 : /\ HsLeq(cur, j + 1, cur, j)
                        /\ Hs(cur, j)[1] >= 0
                        /\ Hs(cur, j)[1] <= Hs(cur, j)[2]
  /\ Len(log) = 1 => \A d \in 0 .. cur.den :
       LET e == EpsFor(cur, d) IN
         CASE e.k = "inf" -> cur.inf > d
           [] e.k = "zero" -> Leq(Hs(cur, 0), <<d, cur.den>>)
           [] OTHER -> /\ e.a > 0 /\ e.b > 0
                       \* the answer lies in its cell
                       /\ e.a * 1 > e.b * Pow(2, e.cell - 1)
                       /\ e.a <= e.b * Pow(2, e.cell)
\* Only the differences between epsilon and the losses count: moving both by
\* any amount changes nothing, and composition adds the movements up.
Moved(f, k) == [f EXCEPT !.m = [l \in {x + k : x \in DOMAIN f.m} |-> f.m[l - k]]]
ShiftLaw == Len(log) = 1 => \A k \in {-1, 1} :
  /\ \A j \in -1 .. 1 : /\ Leq(Hs(Moved(cur, k), j + k), Hs(cur, j))
                         /\ Leq(Hs(cur, j), Hs(Moved(cur, k), j + k))
  /\ \A g \in Partner : cur.den * g.den <= MaxDen =>
       /\ Compose(Moved(cur, k), g) = Moved(Compose(cur, g), k)
       /\ Compose(Moved(cur, k), Moved(g, -k)) = Compose(cur, g)
Emitted == (EmitRows /\ Len(log) = Depth + 1) => PrintT("@@ROW " \o ToJson(
   [log |-> log, f |-> Obj(cur), slack |-> slack]))
EmittedQ == (EmitRows /\ Len(log) = 1) => PrintT("@@ROW " \o ToJson(
   [f |-> Obj(cur), hs |-> [i \in 1 .. 7 |-> Hs(cur, i - 4)],
    eps |-> [d \in 1 .. (cur.den + 1) |-> EpsFor(cur, d - 1)]]))
=============================================================================
