----------------------------- MODULE TraceCurves -----------------------------
(* Validates recorded curves (curves.json) against the laws of Curves.tla.   *)
EXTENDS Curves, Json, TLC
Recorded == JsonDeserialize("curves.json")
VARIABLES i, j
vars == <<i, j>>
Init == i \in 1 .. Len(Recorded) /\ j = 0
\* one step per law of the curve
Check == /\ j < Len(Recorded[i].laws)
         /\ j' = j + 1
         /\ i' = i
         /\ LET c == Recorded[i]
                l == c.laws[j + 1]
            IN Holds(c, l) \/ PrintT("@@BAD " \o ToJson(
                 [id |-> i, law |-> j + 1, at |-> FirstBad(c, l)]))
Next == Check
Spec == Init /\ [][Next]_vars
=============================================================================
