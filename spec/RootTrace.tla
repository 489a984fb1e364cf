----------------------------- MODULE RootTrace ------------------------------
(* Recorded searches of the real solvers.  The axis of a trace is the ordered  *)
(* set of all numbers that occur in it, so every number is its rank.           *)
(*   e    the evaluations, each <<point, sign>>                                *)
(*   lb, ub   the interval, enf whether it is enforced                         *)
(*   root the root, ans the answer, near and far the answer minus and plus the  *)
(*        accuracy asked for, cap the number of evaluations allowed            *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES k, l, lo, hi, s, phase
vars == <<k, l, lo, hi, s, phase>>
Traces == ndJsonDeserialize("traces.ndjson")
T == Traces[k]
E == T.e
Init == /\ k \in 1 .. Len(Traces) /\ l = 1 /\ s = 2 /\ phase = "start"
        /\ lo = 0 /\ hi = 0
Inside(x) == T.enf => T.lb <= x /\ x <= T.ub
Ev(ph) == phase = ph /\ l <= Len(E) /\ l' = l + 1 /\ k' = k /\ Inside(E[l][1])
Start == /\ Ev("start") /\ E[l][1] = T.guess
         /\ lo' = E[l][1] /\ hi' = E[l][1] /\ s' = E[l][2] /\ phase' = (IF E[l][2] = 0 THEN "zero" ELSE "seek")
(* no sign change seen yet: any point, the hull grows *)
Seek == /\ Ev("seek")
        /\ lo' = (IF E[l][1] < lo THEN E[l][1] ELSE lo) /\ hi' = (IF E[l][1] > hi THEN E[l][1] ELSE hi) /\ s' = s
        /\ phase' = (IF E[l][2] = 0 THEN "zero" ELSE IF E[l][2] * s < 0 THEN "refine" ELSE "seek")
(* once both signs are seen the search stays in the hull *)
Refine == /\ Ev("refine") /\ lo <= E[l][1] /\ E[l][1] <= hi
          /\ phase' = (IF E[l][2] = 0 THEN "zero" ELSE "refine") /\ UNCHANGED <<lo, hi, s>>
(* a zero has been evaluated: a method may take a last look inside the hull *)
After == /\ Ev("zero") /\ lo <= E[l][1] /\ E[l][1] <= hi /\ UNCHANGED <<lo, hi, s, phase>>
Stop == /\ phase \in {"zero", "refine"} /\ l = Len(E) + 1
        /\ Inside(T.ans) /\ T.near <= T.root /\ T.root <= T.far /\ Len(E) <= T.cap
        /\ phase' = "done" /\ UNCHANGED <<k, l, lo, hi, s>>
Next == Start \/ Seek \/ Refine \/ After \/ Stop
Spec == Init /\ [][Next]_vars
Report == phase = "done" => PrintT(ToJson([done |-> k]))
Stuck == (phase # "done" /\ ~ENABLED Next) => PrintT(ToJson([stuck |-> k, at |-> l, phase |-> phase]))
=============================================================================
