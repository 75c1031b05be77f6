------------------------------ MODULE MCGoAgg ------------------------------
(* Histories of a few aggregations: every operation, at any time, on objects *)
(* of equal and of different parameters. Each history is printed with what   *)
(* must happen at every step.                                                *)
EXTENDS GoAgg, Json, TLC

CONSTANT Depth

Cases == JsonDeserialize("cases.json")

VARIABLES case, obj, hist, done
vars == <<case, obj, hist, done>>

Objs == 1..3
K(c) == Cases[c]
New(g) == [st |-> "open", grp |-> g, vs |-> <<>>, ret |-> <<>>]

Init ==
  /\ case \in 1..Len(Cases)
  /\ obj = [o \in Objs |-> New(IF o = 3 THEN 2 ELSE 1)]
  /\ hist = <<>>
  /\ done = FALSE

Log(e) == hist' = Append(hist, e)
\* an object of the other group has other parameters: kept out of the values
Par(o) == obj[o].grp

Add(o, v) ==
  LET good == obj[o].st = "open" IN
  /\ obj' = IF good THEN [obj EXCEPT ![o].vs = Append(@, v)] ELSE obj
  /\ Log([op |-> "add", o |-> o, p |-> 0, v |-> v, ok |-> good])

Merge(o, p) ==
  LET good == obj[o].st = "open" /\ obj[p].st = "open" /\ Par(o) = Par(p) IN
  /\ obj' = IF good
            THEN [obj EXCEPT ![o].vs = @ \o obj[p].vs, ![p].st = "merged"]
            ELSE obj
  /\ Log([op |-> "merge", o |-> o, p |-> p, v |-> 0, ok |-> good])

\* serialise o and read the bytes into p
Copy(o, p) ==
  LET good == obj[o].st \in {"open", "sent"} IN
  /\ obj' = IF good
            THEN [obj EXCEPT ![p] = [New(obj[o].grp) EXCEPT !.vs = obj[o].vs],
                             ![o].st = "sent"]
            ELSE obj
  /\ Log([op |-> "copy", o |-> o, p |-> p, v |-> 0, ok |-> good])

Res(o, oi, of, r) ==
  LET k == K(case)
      good == obj[o].st = "open" \/ (k.kind = "quant" /\ obj[o].st = "done")
  IN
  /\ obj' = IF good THEN [obj EXCEPT ![o].st = "done", ![o].ret = <<oi, of>>]
            ELSE obj
  /\ Log([op |-> "res", o |-> o, p |-> 0, v |-> r, ok |-> good, oi |-> oi,
          of |-> of, grp |-> Par(o),
          vals |-> IF good THEN Result(k, obj[o].vs, oi, of, r) ELSE <<>>,
          calls |-> IF good THEN Calls(k, obj[o].vs) ELSE <<>>])

\* A result that is only given at a threshold t (in halves) or above; pre = -1
\* without a pre-threshold.
Thr(o, oi, of, t, pre) ==
  LET k == K(case)
      good == obj[o].st = "open"
      res == Result(k, obj[o].vs, oi, of, 0)
      raw == SumOf(Kept(k, obj[o].vs))
      p1 == MaxOf(pre, 1)
      out == IF pre < 0 THEN 2 * res[1][1] >= t
             ELSE raw >= p1 /\ 2 * (res[1][1] - (p1 - 1)) >= t
  IN
  /\ k.kind \in {"count", "sumi", "sumf"}
  /\ pre < 0 \/ k.kind = "count"
  /\ obj' = IF good THEN [obj EXCEPT ![o].st = "done", ![o].ret = <<oi, of>>]
            ELSE obj
  /\ Log([op |-> "thr", o |-> o, p |-> 0, v |-> t, ok |-> good, oi |-> oi,
          of |-> of, grp |-> Par(o), pre |-> pre,
          vals |-> IF good /\ out THEN res ELSE <<>>,
          calls |-> IF good THEN Calls(k, obj[o].vs) ELSE <<>>])

CI(o, w) ==
  LET k == K(case)
      good == obj[o].st = "done"
      cs == Calls(k, obj[o].vs)
  IN
  /\ k.kind \in {"count", "sumi", "sumf", "mean"}
  /\ obj' = obj
  /\ Log([op |-> "ci", o |-> o, p |-> 0, v |-> w, ok |-> good, grp |-> Par(o),
          ret |-> obj[o].ret,
          vals |-> IF good THEN Interval(k, obj[o].vs, w, obj[o].ret[1],
                                         obj[o].ret[2]) ELSE <<>>,
          calls |-> IF good THEN cs ELSE <<>>])

Step ==
  \/ \E o \in Objs, v \in {K(case).adds[i] : i \in 1..Len(K(case).adds)} : Add(o, v)
  \/ \E o, p \in Objs : o # p /\ (Merge(o, p) \/ Copy(o, p))
  \/ \E o \in Objs, oi \in {0, 3, -4}, r \in {0, 20, 50, 100, 133, 200} :
       /\ K(case).kind = "quant" => oi = 0
       /\ K(case).kind # "quant" => r \in {0, 200}
       /\ Res(o, oi, IF oi = 0 THEN 0 ELSE 5 - 2 * oi, r)
  \/ \E o \in Objs, oi \in {0, 2}, t \in {-3, 2, 5, 8}, pre \in {-1, 0, 1, 3} :
       Thr(o, oi, oi, t, pre)
  \/ \E o \in Objs, w \in {1, 4} : CI(o, w)

Next ==
  \/ /\ Len(hist) < Depth
     /\ Step
     /\ UNCHANGED <<case, done>>
  \/ /\ Len(hist) = Depth /\ ~done
     /\ done' = TRUE
     /\ PrintT("@@ROW " \o ToJson([case |-> case, hist |-> hist]))
     /\ UNCHANGED <<case, obj, hist>>

Spec == Init /\ [][Next]_vars

\* Nothing is ever given out twice, and nothing is lost or counted twice: what
\* an open or finished object holds was added by successful steps.
Once ==
  \A o \in Objs : obj[o].st = "done" => obj[o].ret # <<>>
Consumed == \A o \in Objs : obj[o].st \in {"open", "merged", "sent", "done"}
============================================================================
