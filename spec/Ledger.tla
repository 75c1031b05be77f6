------------------------------- MODULE Ledger -------------------------------
(***************************************************************************)
(* A privacy accountant as a state machine.                                *)
(*                                                                         *)
(*   ledger   run-length ledger: sequence of [e |-> term, n |-> count]     *)
(*   cost     symbolic privacy cost of everything accepted so far          *)
(*   log      what the caller asked for and what the answer was            *)
(*                                                                         *)
(* One action per public operation: Accept (compose that succeeds), Refuse *)
(* (compose that raises UnsupportedEventError), Invalid (compose with a    *)
(* count or an event that is not one), and Fail (compose of an event with  *)
(* parameters that no mechanism has, which may show while it is analysed). *)
(***************************************************************************)
EXTENDS Events

VARIABLES acct, rel, ledger, cost, log
vars == <<acct, rel, ledger, cost, log>>

RECURSIVE Append1(_, _, _)
\* The ledger after n applications of e: no-ops vanish, self compositions are
\* unfolded, equal neighbours are merged; order is kept.
Append1(l, e, n) ==
  CASE e.k = "noop" -> l
    [] e.k = "self" -> Append1(l, e.e, n * e.n)
    [] OTHER ->
         IF l # <<>> /\ l[Len(l)].e = e
         THEN [l EXCEPT ![Len(l)].n = @ + n]
         ELSE Append(l, [e |-> e, n |-> n])

Entry(x) == IF x.n = 1 THEN x.e ELSE [k |-> "self", e |-> x.e, n |-> x.n]
\* The event a reader of the ledger sees.
Build(l) ==
  IF l = <<>> THEN [k |-> "noop"]
  ELSE IF Len(l) = 1 THEN Entry(l[1])
  ELSE [k |-> "comp", es |-> [i \in DOMAIN l |-> Entry(l[i])]]

Init(A, R) ==
  /\ acct = A /\ rel = R
  /\ ledger = <<>> /\ cost = NoCost /\ log = <<>>

Accept(e, n) ==
  /\ n >= 1 /\ ~Broken(e)
  /\ Supports(acct, rel, e)
  /\ ledger' = Append1(ledger, e, n)
  /\ cost' = CostOf(e, n, cost)
  /\ log' = Append(log, [e |-> e, n |-> n, v |-> "ok"])
  /\ UNCHANGED <<acct, rel>>

Refuse(e, n) ==
  /\ ~Supports(acct, rel, e)
  /\ log' = Append(log, [e |-> e, n |-> n, v |-> "unsupported"])
  /\ UNCHANGED <<acct, rel, ledger, cost>>

Invalid(e, n) ==
  /\ Supports(acct, rel, e) /\ ~Broken(e)
  /\ n < 1
  /\ log' = Append(log, [e |-> e, n |-> n, v |-> "invalid"])
  /\ UNCHANGED <<acct, rel, ledger, cost>>

Fail(e, n) ==
  /\ Supports(acct, rel, e) /\ Broken(e)
  /\ log' = Append(log, [e |-> e, n |-> n, v |-> "failed"])
  /\ UNCHANGED <<acct, rel, ledger, cost>>

(******************************* properties ********************************)

Accepted == SelectSeq(log, LAMBDA x : x.v = "ok")

RECURSIVE Replay(_, _)
Replay(s, c) == IF s = <<>> THEN c
                ELSE Replay(Tail(s), CostOf(Head(s).e, Head(s).n, c))

\* Nothing lost, nothing invented: the event the ledger describes costs
\* exactly what the accepted history costs.
LedgerFaithful == CostOf(Build(ledger), 1, NoCost) = cost
HistoryFaithful == Replay(Accepted, NoCost) = cost
\* The ledger is in normal form.
LedgerNormal ==
  /\ \A i \in DOMAIN ledger :
        /\ ledger[i].n >= 1
        /\ ledger[i].e.k \notin {"noop", "self"}
  /\ \A i \in 1 .. (Len(ledger) - 1) : ledger[i].e # ledger[i+1].e
\* The accountant can account for its own ledger.
LedgerSupported == Supports(acct, rel, Build(ledger))

RECURSIVE RevCost(_, _)
RevCost(s, c) == IF s = <<>> THEN c
                 ELSE RevCost(SubSeq(s, 1, Len(s) - 1),
                              CostOf(s[Len(s)].e, s[Len(s)].n, c))
\* Order does not matter for the guarantee.
OrderFree == RevCost(Accepted, NoCost) = cost

LeqCost(a, b) ==
  b.np \/ (/\ ~a.np
           /\ \A x \in DOMAIN a.c : x \in DOMAIN b.c /\ a.c[x] <= b.c[x])
\* Composing never lowers the cost, and non-private is absorbing.
Monotone == [][LeqCost(cost, cost') /\ (cost.np => cost'.np)]_vars
\* A refused operation changes nothing.
RefusedInert ==
  [][(Len(log') > Len(log) /\ log'[Len(log')].v # "ok")
        => UNCHANGED <<ledger, cost>>]_vars
=============================================================================
