---------------------------- MODULE RootSearch ------------------------------
(* Safeguarded search for a root of a continuous function on an ordered axis. *)
(*                                                                            *)
(* The function is any map from the grid 0 .. N to signs that changes sign    *)
(* only through zero (continuity on a grid).  The search evaluates points one  *)
(* at a time: first outwards until the evaluated points show both signs, then  *)
(* at any point of the bracket it likes -- bisection, Brent's and Newton's      *)
(* methods are three policies of this one machine -- keeping the half with the  *)
(* sign change, and stops at a zero or when the bracket is as narrow as the     *)
(* accuracy.  Whatever the policy, the answer is within the accuracy of a root. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Acc
VARIABLES f, lo, hi, phase, ans
vars == <<f, lo, hi, phase, ans>>
Grid == 0 .. N
Signs == {-1, 0, 1}
D1(a, b) == (a - b) \in -1 .. 1
Fns == {g \in [Grid -> Signs] : \A i \in 0 .. N - 1 : D1(g[i], g[i + 1])}
Zero(i) == f[i] = 0
Init == /\ f \in Fns /\ (\E i \in Grid : f[i] = 0)
        /\ \E g \in Grid : /\ lo = g /\ hi = g
                           /\ phase = (IF f[g] = 0 THEN "done" ELSE "seek") /\ ans = g
Opposite(a, b) == a * b <= 0
(* outwards, on one side, by any amount *)
Seek == /\ phase = "seek"
        /\ \E i \in Grid : /\ i < lo \/ i > hi
                           /\ lo' = IF i < lo THEN i ELSE lo
                           /\ hi' = IF i > hi THEN i ELSE hi
                           /\ phase' = (IF Opposite(f[i], f[lo]) THEN (IF f[i] = 0 THEN "done" ELSE "refine") ELSE "seek")
                           /\ ans' = i
        /\ UNCHANGED f
Refine == /\ phase = "refine" /\ hi - lo > Acc
          /\ \E i \in lo + 1 .. hi - 1 :
               /\ lo' = (IF f[i] = f[lo] THEN i ELSE lo) /\ hi' = (IF f[i] = f[lo] THEN hi ELSE i)
               /\ phase' = (IF f[i] = 0 THEN "done" ELSE "refine")
               /\ ans' = i
          /\ UNCHANGED f
Stop == /\ phase = "refine" /\ hi - lo <= Acc /\ phase' = "done" /\ ans' \in {lo, hi} /\ UNCHANGED <<f, lo, hi>>
Next == Seek \/ Refine \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Bracketed == phase = "refine" => f[lo] * f[hi] < 0
HasRoot == phase = "refine" => \E i \in lo .. hi : Zero(i)
Right == phase = "done" => \E i \in Grid : Zero(i) /\ ans - i \in -Acc .. Acc
Narrows == [][phase = "refine" => lo' >= lo /\ hi' <= hi]_vars
(* a refining search stops: the bracket is a finite set that shrinks *)
Terminates == (phase = "refine") ~> (phase = "done")
=============================================================================
