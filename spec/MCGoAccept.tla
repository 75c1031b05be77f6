----------------------------- MODULE MCGoAccept -----------------------------
(* Every combination of classes of parameters, and whether an aggregation    *)
(* may be made with it.                                                      *)
EXTENDS GoAgg, Json, TLC
CONSTANT Kind

Reals == {"neg", "zero", "tiny", "ok", "one", "inf", "nan"}
Bounds == { <<"fin", "fin", "lt">>, <<"fin", "fin", "eq">>, <<"fin", "fin", "gt">>,
            <<"fin", "fin", "zero">>, <<"nan", "fin", "un">>, <<"fin", "nan", "un">>,
            <<"-inf", "fin", "lt">>, <<"fin", "inf", "lt">>, <<"-inf", "inf", "lt">>,
            <<"inf", "inf", "eq">> }
Some == <<"fin", "fin", "lt">>
Params ==
  LET P(e, d, n, l, m, b, pr, h, br) ==
        [eps |-> e, delta |-> d, noise |-> n, l0 |-> l, mcpp |-> m, lo |-> b[1],
         up |-> b[2], rel |-> b[3], pre |-> pr, h |-> h, b |-> br]
  IN { P(e, d, n, l, m, b, pr, 2, 4) :
         e \in {"neg", "zero", "tiny", "ok", "inf", "nan"}, d \in Reals,
         n \in {"L", "G", ""}, l \in {-1, 0, 1}, m \in {-1, 0, 2},
         b \in IF Kind \in {"count", "part"} THEN {Some} ELSE Bounds,
         pr \in IF Kind = "part" THEN {-1, 0, 3} ELSE {0} }
     \cup { P("ok", "zero", "L", 1, 1, Some, 0, h, br) :
              h \in {-1, 0, 1, 3}, br \in {-2, 0, 1, 2, 4} }
VARIABLE p
Init == p \in Params /\ PrintT("@@ROW " \o ToJson(
          [p |-> p, ok |-> Accepts(Kind, p), open |-> Open(Kind, p)]))
Next == FALSE /\ UNCHANGED p
Spec == Init /\ [][Next]_p
=============================================================================
