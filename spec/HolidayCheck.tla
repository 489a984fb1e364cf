---------------------------- MODULE HolidayCheck ----------------------------
(* One state per (market, year): the set of holidays and of non-business     *)
(* days, with the invariants that make them sensible.                        *)
EXTENDS Calendars, TLC, Json
CONSTANTS FirstYear, LastYear, Mk
VARIABLES k, y
Init == k \in Mk /\ y = FirstYear
Next == y < LastYear /\ y' = y + 1 /\ k' = k
Spec == Init /\ [][Next]_<<k, y>>

Ords(S) == {j - DN(y, 1, 1) + 1 : j \in S}
\* all holidays lie in their year
InYear == \A j \in Hol(k, y) : Y(j) = y
EasterOK == /\ W(Easter(y)) = Sun /\ W(OrthodoxEaster(y)) = Sun
            /\ Easter(y) >= DN(y, 3, 22) /\ Easter(y) <= DN(y, 4, 25)
            /\ OrthodoxEaster(y) >= Easter(y)
\* the calendar arithmetic is a bijection and the weekday advances
GregorianOK == y % 7 # 0 \/ \A j \in YearDays(y) :
                 /\ LET t == YMD(j) IN DN(t[1], t[2], t[3]) = j /\ t[1] = y /\ t[3] \in 1..MonthLen(y, t[2])
HebrewOK == LET h == y + 3760 IN
              /\ HYearLen(h) \in (IF HLeap(h) THEN {383, 384, 385} ELSE {353, 354, 355})
              /\ W(HNewYear(h)) \notin {Sun, Wed, Fri}
              /\ W(HDate(h, HNisan(h), 15)) \notin {Mon, Wed, Fri}
Emit == PrintT(ToJson([k |-> k, y |-> y, h |-> Ords(Hol(k, y)),
                       w |-> Ords({j \in YearDays(y) : W(j) \in WeekendDays(k)}),
                       e |-> Ordinal(Easter(y) + 1), o |-> Ordinal(OrthodoxEaster(y) + 1)]))
=============================================================================
