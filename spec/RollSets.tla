------------------------------ MODULE RollSets ------------------------------
(* Every set of user-added holidays inside a short window at a month end:    *)
(* rolls of every day of the window and all business-day counts in it.       *)
EXTENDS BusinessDays, TLC, Json
CONSTANTS Wins, Win
VARIABLES k, b, x
Days == 0 .. (Win - 1)
Init == \E w \in Wins : k = w[1] /\ b = DN(w[2], w[3], w[4]) /\ x \in SUBSET Days
Next == FALSE /\ UNCHANGED <<k, b, x>>
Spec == Init /\ [][Next]_<<k, b, x>>
NB == NonBusiness(k, (b - 30) .. (b + Win + 30)) \cup {b + d : d \in x}
OK == LET nb == NB IN \A d \in Days : \A i \in 1..6 : RollOK(nb, Convs[i], b + d)
Emit == LET nb == NB IN PrintT(ToJson([k |-> k, b |-> b, x |-> x,
   r |-> [i \in 1..6 |-> [d \in 1..Win |-> Roll(nb, Convs[i], b + d - 1)]],
   c |-> [d \in 1..Win |-> BusinessCount(nb, b, b + d - 1)],
   bd |-> [d \in 1..Win |-> b + d - 1 \notin nb]]))
=============================================================================
