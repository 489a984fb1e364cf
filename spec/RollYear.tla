------------------------------ MODULE RollYear ------------------------------
(* One state per (market, year): where every day of the year rolls to.       *)
EXTENDS BusinessDays, TLC, Json
CONSTANTS Pairs
VARIABLES k, y, nb
Init == \E p \in Pairs : k = p[1] /\ y = p[2]
          /\ nb = NonBusiness(p[1], (DN(p[2], 1, 1) - 45) .. (DN(p[2], 12, 31) + 45))
Next == FALSE /\ UNCHANGED <<k, y, nb>>
Spec == Init /\ [][Next]_<<k, y, nb>>
RollsOK == \A j \in YearDays(y) : \A i \in 1..6 : RollOK(nb, Convs[i], j)
Emit == PrintT(ToJson([k |-> k, y |-> y,
          r |-> [i \in 1..6 |-> [n \in 1..YearLen(y) |-> LET j == DN(y, 1, 1) + n - 1 IN Roll(nb, Convs[i], j) - j]]]))
=============================================================================
