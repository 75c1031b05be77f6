------------------------------ MODULE TraceTuple -----------------------------
(* Recorded conversions of the implementation, judged by MCTuple.            *)
EXTENDS MCTuple
Rows == JsonDeserialize("conversions.json")
VARIABLE row
TInit == /\ row \in DOMAIN Rows
         /\ orig = Rows[row].event /\ obj = Rows[row].tuple /\ phase = "tuple"
TNext == UNCHANGED <<vars, row>>
TSpec == TInit /\ [][TNext]_<<vars, row>>
Good == /\ obj = ToTuple(orig) /\ Valid(obj) /\ OnlyTuples(obj)
        /\ FromTuple(obj) = orig /\ Rows[row].back = orig
Judged == Good \/ PrintT("@@BAD " \o ToJson([id |-> row]))
=============================================================================
