---------------------------- MODULE TraceLedger -----------------------------
(***************************************************************************)
(* Validates recorded runs of the real accountants against Ledger.  A run  *)
(* is a header (accountant, relation) and a sequence of recorded steps:    *)
(*   e, n   the operation                                                  *)
(*   v      the recorded verdict: ok | unsupported | invalid | failed |    *)
(*          error:<T>                                                      *)
(*   sup    the recorded answer of supports(e)                             *)
(*   led    the recorded ledger event after the step                       *)
(*   np     recorded guarantee infinite (yes | no | mixed answers)         *)
(*   mono   did the recorded guarantee stay or grow?                       *)
(*   same   were all recorded answers unchanged by the step?               *)
(* The verdict of each step is total: the set of clauses it breaks.        *)
(***************************************************************************)
EXTENDS Ledger, Json
Runs == JsonDeserialize("runs.json")
VARIABLES t, i
tvars == <<acct, rel, ledger, cost, log, t, i>>

TraceInit ==
  \E r \in DOMAIN Runs :
    /\ t = r /\ i = 0
    /\ Init(Runs[r].a, Runs[r].r)

Cur == Runs[t].steps[i + 1]

\* The specification's transition for the recorded operation.
SpecStep == Accept(Cur.e, Cur.n) \/ Refuse(Cur.e, Cur.n) \/ Invalid(Cur.e, Cur.n)
            \/ Fail(Cur.e, Cur.n)

Breaks(x) ==
  LET v == log'[Len(log')].v
  IN  (IF x.v # v /\ ~(v = "failed" /\ x.v = "unsupported") THEN {"verdict"} ELSE {})
      \* (an invalid parameter may show early or late)
      \cup (IF ~Broken(x.e) /\ x.sup # Supports(acct, rel, x.e) THEN {"supports"} ELSE {})
      \cup (IF x.led # Build(ledger') THEN {"ledger"} ELSE {})
      \cup (IF x.np # (IF cost'.np THEN "yes" ELSE "no") THEN {"nonprivate"} ELSE {})
      \cup (IF ~x.mono THEN {"monotone"} ELSE {})
      \cup (IF v # "ok" /\ ~x.same THEN {"inert"} ELSE {})
      \cup (IF v = "ok" /\ cost' = cost /\ ~x.same THEN {"free"} ELSE {})

TraceNext ==
  /\ i < Len(Runs[t].steps)
  /\ i' = i + 1 /\ t' = t
  /\ SpecStep
  /\ LET b == Breaks(Cur) IN
       IF b = {} THEN TRUE
       ELSE PrintT("@@BAD " \o ToJson(
              [t |-> t, i |-> i + 1, clauses |-> b,
               led |-> Build(ledger'), v |-> log'[Len(log')].v,
               np |-> cost'.np]))
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* Every recorded step was consumed by exactly one specification step.
Consumed == TLCGet("stats").distinct = JsonDeserialize("total.json").n
=============================================================================
