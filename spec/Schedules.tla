------------------------------ MODULE Schedules -----------------------------
(* Frequencies: periods per year and the documented bands of day distances;  *)
(* date sequences.                                                           *)
EXTENDS Dates, TLC, Json
CONSTANTS Starts, Neg, MaxD, SeqD
MinD == -Neg
VARIABLES a, d
Bands == << <<"Daily", 252, 1, 1>>, <<"Weekly", 52, 7, 7>>, <<"BiWeekly", 26, 14, 14>>, <<"SemiMonthly", 24, 15, 15>>,
            <<"Monthly", 12, 28, 31>>, <<"SemiQuarterly", 8, 45, 46>>, <<"Quarterly", 4, 91, 92>>,
            <<"TriAnnually", 3, 121, 122>>, <<"SemiAnnually", 2, 182, 183>>, <<"Annually", 1, 365, 366>> >>
Infer(n) == LET S == {i \in DOMAIN Bands : Bands[i][3] <= n /\ n <= Bands[i][4]} IN
            IF S = {} THEN "none" ELSE Bands[CHOOSE i \in S : TRUE][1]
\* bands are disjoint, and each holds the rounded length of its period (except trading days)
BandsOK == /\ \A i, j \in DOMAIN Bands : i # j => Bands[i][4] < Bands[j][3] \/ Bands[j][4] < Bands[i][3]
           /\ \A i \in DOMAIN Bands \ {1} : LET q == 365 \div Bands[i][2] IN Bands[i][3] - 1 <= q /\ q <= Bands[i][4]
Init == a \in Starts /\ d = MinD
Next == d < MaxD /\ d' = d + 1 /\ a' = a
Spec == Init /\ [][Next]_<<a, d>>
Emit == PrintT(ToJson([a |-> a, d |-> d, f |-> Infer(d), s |-> IF d \in SeqD THEN [i \in 1 .. (d + 1) |-> a + i - 1] ELSE <<>>]))
EmitFreq == d # MinD \/ PrintT(ToJson([p |-> [i \in DOMAIN Bands |-> <<Bands[i][1], Bands[i][2]>>]]))
=============================================================================
