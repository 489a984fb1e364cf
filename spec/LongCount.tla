----------------------------- MODULE LongCount ------------------------------
(* Business-day and calendar-day counts over ranges of many years, from every *)
(* day of one and a half weeks, with and without user-added holidays.         *)
EXTENDS BusinessDays, TLC, Json
CONSTANTS Jobs          \* <<market, first day, number of days, set of added days>>
VARIABLES k, a, n, x, nb
vars == <<k, a, n, x, nb>>
Starts == 0 .. 9
Steps == 12
End(s, i) == a + s + ((n - 10) \div Steps) * i + (i % 7)
Init == \E p \in Jobs : k = p[1] /\ a = p[2] /\ n = p[3] /\ x = p[4]
          /\ nb = NonBusiness(p[1], p[2] .. (p[2] + p[3] + 10)) \cup p[4]
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
(* counting is additive: a range is the sum of its parts *)
Additive == \A s \in {0, 5} : \A i \in 1 .. Steps :
   BusinessCount(nb, a + s, End(s, i)) = BusinessCount(nb, a + s, End(s, i - 1)) + BusinessCount(nb, End(s, i - 1) + 1, End(s, i))
Emit == PrintT(ToJson([k |-> k, a |-> a, x |-> x,
          q |-> [j \in 1 .. 10 * Steps |-> LET s == (j - 1) \div Steps  e == End(s, ((j - 1) % Steps) + 1)
                                           IN <<a + s, e, BusinessCount(nb, a + s, e), e - (a + s)>>]]))
=============================================================================
