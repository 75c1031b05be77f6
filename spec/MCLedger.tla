------------------------------ MODULE MCLedger ------------------------------
(* Bounded exhaustive exploration of Ledger, and scenario generation.       *)
EXTENDS Ledger, Json
CONSTANTS Depth,      \* number of operations in a history
          Level,      \* which event universe
          EmitRows    \* print every maximal history as a scenario?

G(w) == [k |-> "gauss", w |-> w]
L(p) == [k |-> "lap", p |-> p]
S(e, n) == [k |-> "self", e |-> e, n |-> n]
C(es) == [k |-> "comp", es |-> es]
P(q, e) == [k |-> "poisson", q |-> q, e |-> e]
W(q, e) == [k |-> "swor", q |-> q, e |-> e]
RNS(p, e) == [k |-> "rns", p |-> p, e |-> e]
NOOP == [k |-> "noop"]
NONP == [k |-> "nonpriv"]
UNSUP == [k |-> "unsup"]
RR(p) == [k |-> "rr", p |-> p]
MOG(p) == [k |-> "mog", p |-> p]
TREE(p) == [k |-> "tree", p |-> p]

\* Core universe: the operations whose interplay over a history matters.
Core == { G(-1), C(<<G(1), L("bad")>>), NOOP, NONP, UNSUP, G(1), L("a"), RR("a"), MOG("a"), TREE("a"),
          S(G(1), 2), S(C(<<G(1), L("a")>>), 2), C(<<G(4), UNSUP>>),
          C(<<L("a"), NOOP, G(1)>>), P("h", G(1)), W("h", G(1)),
          RNS("g", G(1)) }

\* Wide universe: shapes whose treatment is decided structurally.
Leaf == { NOOP, NONP, UNSUP, G(0), G(1), G(4), L("0"), L("a"), RR("0"),
          RR("id"), RR("a"), MOG("0"), MOG("id"), MOG("a"), TREE("0"),
          TREE("a") }
Nest == Leaf \cup {S(e, n) : e \in Leaf, n \in {-1, 0, 1, 3}}
             \cup {C(<<a, b>>) : a \in Leaf, b \in Leaf}
             \cup {C(<<>>)} \cup {C(<<a>>) : a \in Leaf}
Bads == { G(-1), L("bad"), RR("bad"), MOG("bad"), TREE("bad"), P("bad", G(1)),
          P("bad", L("a")), P("h", G(-1)), P("h", L("bad")), W("bad", G(1)),
          RNS("bad", G(1)), S(G(-1), 2) }
Wide == Nest
        \cup {P(q, e) : q \in {"0", "h", "1"}, e \in Nest}
        \cup {W(q, e) : q \in {"0", "h", "1"}, e \in Nest}
        \cup {[k |-> "swr", q |-> "h", e |-> e] : e \in Leaf}
        \cup {RNS(p, e) : p \in {"g", "p", "l", "t"}, e \in Nest}
        \cup {C(<<a, S(b, 2)>>) : a \in Leaf, b \in Leaf}
        \cup {C(<<a, P("h", b)>>) : a \in Leaf, b \in Leaf}
        \cup {S(C(<<a, b>>), 2) : a \in Leaf, b \in Leaf}
        \cup Bads \cup {C(<<a, b>>) : a \in Leaf, b \in Bads}
        \cup {C(<<b, a>>) : a \in Leaf, b \in Bads}
        \cup {S(C(<<G(1), b>>), 2) : b \in Bads}
        \cup {RNS("g", C(<<a, b>>)) : a \in {G(1), L("a")}, b \in Bads}
        \cup {P("h", S(C(<<a, S(b, 3)>>), 2)) : a \in Leaf, b \in Leaf}

Universe == IF Level = "wide" THEN Wide ELSE Core
Counts == IF Level = "wide" THEN {1, 3} ELSE {0, 1, 2}

MCInit == \E A \in Accountants, R \in Relations : Init(A, R)
MCNext ==
  /\ Len(log) < Depth
  /\ \E e \in Universe, n \in Counts :
       Accept(e, n) \/ Refuse(e, n) \/ Invalid(e, n) \/ Fail(e, n)
MCSpec == MCInit /\ [][MCNext]_vars

\* Complete histories leave as scenarios: operations, verdicts, and what the
\* specification says about the final state.
Emitted ==
  (EmitRows /\ Len(log) = Depth) =>
     PrintT("@@ROW " \o ToJson(
       [a |-> acct, r |-> rel, log |-> log, led |-> Build(ledger),
        np |-> cost.np, c |-> CostList(cost.c)]))
=============================================================================
