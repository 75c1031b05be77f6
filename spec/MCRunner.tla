------------------------------- MODULE MCRunner ------------------------------
(* The auditorium's test runner: a limited number of trials, each comparing  *)
(* the samples of a proposed pair of datasets in both directions, until one  *)
(* is evidence of a violation.  Any step may fail.                           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS Estimates, Threshold, MaxTrials, EmitRows
None == 1000
Points == {"propose", "sample1", "sample2", "estimate12", "estimate21", "judge"}
Most(x, y) == IF x < y THEN y ELSE x

VARIABLES limit, script, fault, trial, step, ests, last, told, drawn, verdict
vars == <<limit, script, fault, trial, step, ests, last, told, drawn, verdict>>
Init ==
  /\ limit \in 0 .. MaxTrials
  /\ script \in [1 .. limit -> Estimates \X Estimates]
  /\ fault \in {<<0, "none">>} \cup ((1 .. limit) \X Points)
  /\ trial = 1 /\ step = "propose" /\ ests = <<>> /\ last = None
  /\ told = <<>> /\ drawn = <<>> /\ verdict = "running"
Fails(p) == fault = <<trial, p>>
Running == verdict = "running"
Give == /\ Running /\ trial > limit /\ verdict' = "limit"
        /\ UNCHANGED <<limit, script, fault, trial, step, ests, last, told, drawn>>
Propose == /\ Running /\ trial <= limit /\ step = "propose"
           /\ told' = Append(told, last)
           /\ IF Fails("propose") THEN verdict' = "error" /\ UNCHANGED step
              ELSE step' = "sample" /\ UNCHANGED verdict
           /\ UNCHANGED <<limit, script, fault, trial, ests, last, drawn>>
Sample == /\ Running /\ step = "sample"
          /\ IF Fails("sample1") \/ Fails("sample2")
             THEN verdict' = "error" /\ UNCHANGED <<step, drawn>>
             ELSE step' = "estimate" /\ drawn' = Append(drawn, trial) /\ UNCHANGED verdict
          /\ UNCHANGED <<limit, script, fault, trial, ests, last, told>>
Estimate == /\ Running /\ step = "estimate"
            /\ IF Fails("estimate12") \/ Fails("estimate21")
               THEN verdict' = "error" /\ UNCHANGED <<step, ests, last>>
               ELSE /\ last' = Most(script[trial][1], script[trial][2])
                    /\ ests' = Append(ests, last')
                    /\ step' = "judge" /\ UNCHANGED verdict
            /\ UNCHANGED <<limit, script, fault, trial, told, drawn>>
Judge == /\ Running /\ step = "judge"
         /\ IF Fails("judge") THEN verdict' = "error" /\ UNCHANGED <<trial, step>>
            ELSE IF last > Threshold THEN verdict' = "found" /\ UNCHANGED <<trial, step>>
            ELSE trial' = trial + 1 /\ step' = "propose" /\ UNCHANGED verdict
         /\ UNCHANGED <<limit, script, fault, ests, last, told, drawn>>
Next == Give \/ Propose \/ Sample \/ Estimate \/ Judge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Evidence(t) == script[t][1] > Threshold \/ script[t][2] > Threshold
Found == verdict = "found" <=>
  /\ verdict # "running" /\ verdict # "error"
  /\ \E t \in 1 .. limit : Evidence(t)
FirstOne == verdict = "found" => /\ Evidence(trial) /\ Len(ests) = trial
                                 /\ \A t \in 1 .. trial - 1 : ~Evidence(t)
AllTried == verdict = "limit" => Len(ests) = limit /\ \A t \in 1 .. limit : ~Evidence(t)
\* a failure is neither kind of verdict, unless the run ended before it
FailureShows == (verdict \in {"found", "limit"} /\ fault[1] # 0) =>
  verdict = "found" /\ fault[1] > trial
\* the proposer hears of the trial before, of nothing at first
Told == \A t \in DOMAIN told : told[t] = IF t = 1 THEN None ELSE ests[t - 1]
Halts == <>(verdict # "running")
Emitted == (EmitRows /\ verdict # "running") => PrintT("@@ROW " \o ToJson(
  [limit |-> limit, script |-> script, fault |-> fault, verdict |-> verdict,
   ests |-> ests, told |-> told, drawn |-> drawn]))
=============================================================================
