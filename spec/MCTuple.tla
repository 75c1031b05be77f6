------------------------------- MODULE MCTuple -------------------------------
(* Events as values, and their representation by named tuples.               *)
(*                                                                           *)
(* A value is  [t |-> "plain", v |-> name]                                   *)
(*             [t |-> "seq", k |-> "list" or "tuple", xs |-> values]         *)
(*             [t |-> "map", k |-> kind of keys, xs |-> values]              *)
(*                                  (the i-th key of a kind, for i in order) *)
(*             [t |-> "event", c |-> class, xs |-> values of its fields]     *)
(*             [t |-> "named", c |-> class, fs |-> field names, xs |-> ...]  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS EmitRows, Wide

\* the classes and their fields, in order
Sig == [
  DpEvent |-> <<>>, NoOpDpEvent |-> <<>>, NonPrivateDpEvent |-> <<>>,
  UnsupportedDpEvent |-> <<>>,
  RandomizedResponseDpEvent |-> <<"noise_parameter", "num_buckets">>,
  GaussianDpEvent |-> <<"noise_multiplier">>,
  LaplaceDpEvent |-> <<"noise_multiplier">>,
  SelfComposedDpEvent |-> <<"event", "count">>,
  ComposedDpEvent |-> <<"events">>,
  PoissonSampledDpEvent |-> <<"sampling_probability", "event">>,
  SampledWithReplacementDpEvent |-> <<"source_dataset_size", "sample_size", "event">>,
  SampledWithoutReplacementDpEvent |-> <<"source_dataset_size", "sample_size", "event">>,
  SingleEpochTreeAggregationDpEvent |-> <<"noise_multiplier", "step_counts">>,
  RepeatAndSelectDpEvent |-> <<"event", "mean", "shape">>,
  MixtureOfGaussiansDpEvent |-> <<"standard_deviation", "sensitivities", "sampling_probs">>,
  \* a user's classes with fields of any kind
  Box |-> <<"item">>, Pair |-> <<"index", "count">>,
  _Odd_ |-> <<"layer_name", "class_names">>]
Classes == DOMAIN Sig

RECURSIVE ToTuple(_)
ToTuple(v) ==
  CASE v.t = "plain" -> v
    [] v.t = "event" -> [t |-> "named", c |-> v.c, fs |-> Sig[v.c],
                         xs |-> [i \in DOMAIN v.xs |-> ToTuple(v.xs[i])]]
    [] OTHER -> [v EXCEPT !.xs = [i \in DOMAIN v.xs |-> ToTuple(v.xs[i])]]

\* the event a named tuple stands for; fields go by name, not by position
RECURSIVE Valid(_)
Valid(v) ==
  /\ v.t = "named" => /\ v.c \in Classes
                      /\ Len(v.fs) = Len(Sig[v.c])
                      /\ {v.fs[i] : i \in DOMAIN v.fs} = {Sig[v.c][i] : i \in DOMAIN Sig[v.c]}
  /\ v.t # "plain" => \A i \in DOMAIN v.xs : Valid(v.xs[i])
RECURSIVE FromTuple(_)
FromTuple(v) ==
  CASE v.t = "plain" -> v
    [] v.t = "named" ->
         [t |-> "event", c |-> v.c,
          xs |-> [i \in DOMAIN Sig[v.c] |->
                    FromTuple(v.xs[CHOOSE j \in DOMAIN v.fs : v.fs[j] = Sig[v.c][i]])]]
    [] OTHER -> [v EXCEPT !.xs = [i \in DOMAIN v.xs |-> FromTuple(v.xs[i])]]

\* ---------------------------------------------------------------- universe
P(n) == [t |-> "plain", v |-> n]
E(c, xs) == [t |-> "event", c |-> c, xs |-> xs]
L(k, xs) == [t |-> "seq", k |-> k, xs |-> xs]
Plains == {P("1.5"), P("2"), P("text"), P("none")}
Leaves == {E(c, <<>>) : c \in {d \in Classes : Sig[d] = <<>>}}
   \cup {E("GaussianDpEvent", <<P("1.5")>>), E("LaplaceDpEvent", <<P("1.5")>>),
         E("GaussianDpEvent", <<P("2")>>),
         E("RandomizedResponseDpEvent", <<P("1.5"), P("2")>>),
         E("SingleEpochTreeAggregationDpEvent", <<P("1.5"), P("2")>>),
         E("SingleEpochTreeAggregationDpEvent", <<P("1.5"), L("list", <<P("2"), P("2")>>)>>),
         E("MixtureOfGaussiansDpEvent",
           <<P("1.5"), L("tuple", <<P("1.5"), P("2")>>), L("list", <<P("2"), P("1.5")>>)>>)}
Few == {E("NoOpDpEvent", <<>>), E("GaussianDpEvent", <<P("1.5")>>),
        E("MixtureOfGaussiansDpEvent",
           <<P("1.5"), L("tuple", <<P("1.5"), P("2")>>), L("list", <<P("2"), P("1.5")>>)>>)}
Seqs(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
Wrapped(S) ==
  UNION {{E("SelfComposedDpEvent", <<e, P("2")>>),
          E("PoissonSampledDpEvent", <<P("1.5"), e>>),
          E("SampledWithReplacementDpEvent", <<P("2"), P("1.5"), e>>),
          E("SampledWithoutReplacementDpEvent", <<P("2"), P("1.5"), e>>),
          E("RepeatAndSelectDpEvent", <<e, P("1.5"), P("2")>>)} : e \in S}
KeyKinds == {"text", "number", "pair", "bytes"}
Containers(S, n) == UNION {{L("list", xs), L("tuple", xs)}
                           \cup {[t |-> "map", k |-> kk, xs |-> xs] :
                                   kk \in IF xs # <<>> /\ (n = 1 \/ Wide) THEN KeyKinds ELSE {"text"}} : xs \in Seqs(S, n)}
Boxes(S) == {E("Box", <<v>>) : v \in S}
Composed(S, n) == UNION {{E("ComposedDpEvent", <<L(k, xs)>>) : k \in {"list", "tuple"}} : xs \in Seqs(S, n)}
Level1 == Wrapped(Leaves) \cup Composed(Leaves, 2) \cup Boxes(Plains \cup Leaves)
          \cup Boxes(Containers(Plains \cup Few, 2))
          \cup {E(k, <<x, y>>) : k \in {"Pair", "_Odd_"}, x \in Plains \cup Few, y \in Plains \cup Few}
Some1 == Wrapped(Few) \cup Composed(Few, 1) \cup Boxes({P("text")}) \cup Boxes(Containers(Few, 1))
Level2 == Wrapped(Some1) \cup Composed(Few \cup Some1, IF Wide THEN 2 ELSE 1)
          \cup Boxes(Containers(Some1, 1))
          \cup Boxes(Containers(Containers({P("text")} \cup Few, 1), IF Wide THEN 2 ELSE 1))
          \cup {E("Pair", <<x, y>>) : x \in Few, y \in Some1}
Level3 == Wrapped(Boxes(Containers(Wrapped({E("GaussianDpEvent", <<P("2")>>)}), 1)))
          \cup Composed(Composed(Composed(Few, 1), 1), 1)
          \cup Boxes(Containers(Containers(Containers(Few, 1), 1), 1))
Events == Leaves \cup Level1 \cup Level2 \cup Level3

\* ------------------------------------------------------------- transitions
VARIABLES phase, orig, obj
vars == <<phase, orig, obj>>
Init == /\ orig \in Events /\ obj = orig /\ phase = "event"
Convert == /\ phase = "event" /\ obj' = ToTuple(obj) /\ phase' = "tuple" /\ UNCHANGED orig
Restore == /\ phase \in {"tuple", "reordered"} /\ Valid(obj)
           /\ obj' = FromTuple(obj) /\ phase' = "restored" /\ UNCHANGED orig
\* fields may come in any order
Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Reorder == /\ phase = "tuple"
           /\ obj' = [obj EXCEPT !.fs = Reverse(@), !.xs = Reverse(@)]
           /\ phase' = "reordered" /\ UNCHANGED orig
\* damage at the top
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Drop(i) == [obj EXCEPT !.fs = Without(@, i), !.xs = Without(@, i)]
Extra == [obj EXCEPT !.fs = Append(@, "surplus"), !.xs = Append(@, P("2"))]
Misname(i) == [obj EXCEPT !.fs[i] = "surplus"]
Unknown == [obj EXCEPT !.c = "NoSuchDpEvent"]
Tamper == /\ phase = "tuple" /\ phase' = "tampered" /\ UNCHANGED orig
          /\ \/ \E i \in DOMAIN obj.xs : obj' \in {Drop(i), Misname(i)}
             \/ obj' = Extra
             \/ obj' = Unknown
Refuse == /\ phase = "tampered" /\ ~Valid(obj) /\ phase' = "refused" /\ UNCHANGED <<orig, obj>>
Next == Convert \/ Restore \/ Reorder \/ Tamper \/ Refuse
Spec == Init /\ [][Next]_vars

RECURSIVE OnlyTuples(_)
OnlyTuples(v) == v.t # "event" /\ (v.t # "plain" => \A i \in DOMAIN v.xs : OnlyTuples(v.xs[i]))
RoundTrip == phase = "restored" => obj = orig
NoEvents == phase \in {"tuple", "reordered"} => OnlyTuples(obj)
NeverAccepted == phase = "tampered" => ~Valid(obj)
\* unhashable parts make an event unhashable
RECURSIVE Hashable(_)
Hashable(v) ==
  CASE v.t = "plain" -> TRUE
    [] v.t = "map" -> FALSE
    [] v.t = "seq" -> v.k = "tuple" /\ \A i \in DOMAIN v.xs : Hashable(v.xs[i])
    [] OTHER -> \A i \in DOMAIN v.xs : Hashable(v.xs[i])
Emitted == (EmitRows /\ phase \in {"tuple", "reordered", "tampered"}) =>
  PrintT("@@ROW " \o ToJson([phase |-> phase, event |-> orig, tuple |-> obj,
                             hash |-> Hashable(orig)]))
=============================================================================
