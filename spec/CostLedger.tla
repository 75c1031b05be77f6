----------------------------- MODULE CostLedger -----------------------------
(* The symbolic cost the specification assigns to recorded histories.       *)
EXTENDS Ledger, Json
Runs == JsonDeserialize("runs.json")
VARIABLES t, i
TraceInit == \E r \in DOMAIN Runs : t = r /\ i = 0 /\ Init(Runs[r].a, Runs[r].r)
Cur == Runs[t].steps[i + 1]
TraceNext ==
  /\ i < Len(Runs[t].steps)
  /\ i' = i + 1 /\ t' = t
  /\ (Accept(Cur.e, Cur.n) \/ Refuse(Cur.e, Cur.n) \/ Invalid(Cur.e, Cur.n) \/ Fail(Cur.e, Cur.n))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, t, i>>
Emitted == (i = Len(Runs[t].steps)) =>
   PrintT("@@ROW " \o ToJson([t |-> t, np |-> cost.np, c |-> CostList(cost.c),
                              log |-> log]))
=============================================================================
