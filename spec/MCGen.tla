-------------------------------- MODULE MCGen --------------------------------
(* A dataset generator driven by a study: every call hands in the result for *)
(* the proposal before (or none) and gets a pair of datasets.                *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS Results, MaxCalls, EmitRows
None == 1000
Nothing == -1
VARIABLES calls, dry, open, made, heard, answers
vars == <<calls, dry, open, made, heard, answers>>
\* open: the proposal that awaits its result; dry: requests the study refuses
\* heard[p]: the results the study was told for proposal p
Init == /\ calls = <<>> /\ dry \in SUBSET (1 .. MaxCalls)
        /\ open = Nothing /\ made = 0 /\ heard = <<>> /\ answers = <<>>
Asked == Len(SelectSeq(answers, LAMBDA x : x.fresh))
Call(a) ==
  /\ Len(calls) < MaxCalls /\ calls' = Append(calls, a)
  /\ LET report == a # None /\ open # Nothing
         fresh == report \/ open = Nothing
         h == IF report THEN [heard EXCEPT ![open] = Append(@, a)] ELSE heard
     IN IF ~fresh
        THEN /\ answers' = Append(answers, [fresh |-> FALSE, p |-> open])
             /\ UNCHANGED <<open, made>> /\ heard' = h
        ELSE IF Asked + 1 \in dry
        THEN /\ answers' = Append(answers, [fresh |-> TRUE, p |-> Nothing])
             /\ open' = Nothing /\ heard' = h /\ UNCHANGED made
        ELSE /\ answers' = Append(answers, [fresh |-> TRUE, p |-> made + 1])
             /\ made' = made + 1 /\ open' = made + 1 /\ heard' = Append(h, <<>>)
  /\ UNCHANGED dry
Next == \E a \in Results \cup {None} : Call(a)
Spec == Init /\ [][Next]_vars
\* a proposal hears at most one result, and only after it was made
Once == \A p \in DOMAIN heard : Len(heard[p]) <= 1
\* every result handed in right after a proposal reaches that proposal
Delivered == \A k \in DOMAIN calls : k > 1 /\ calls[k] # None /\ answers[k - 1].p # Nothing
  => heard[answers[k - 1].p] = <<calls[k]>>
\* without a result the same proposal stands
Stands == \A k \in DOMAIN calls : k > 1 /\ calls[k] = None /\ answers[k - 1].p # Nothing
  => answers[k].p = answers[k - 1].p
Emitted == (EmitRows /\ Len(calls) = MaxCalls) => PrintT("@@ROW " \o ToJson(
  [calls |-> calls, dry |-> dry, answers |-> answers, heard |-> heard]))
=============================================================================
