------------------------------ MODULE DayCount ------------------------------
(* Day count conventions as sums of exact fractions <<numerator, denominator>>. *)
EXTENDS Dates, TLC, Json
CONSTANTS Firsts, Offsets, Pairs
VARIABLES s, e
Max(a, b) == IF a > b THEN a ELSE b
Touched(a, b) == Y(a) .. Y(b)
LeapDays(a, b) == {DN(y, 2, 29) : y \in {z \in Touched(a, b) : IsLeap(z)}}
LastFeb(j) == LET t == YMD(j) IN t[2] = 2 /\ t[3] = MonthLen(t[1], 2)

Thirty(a, d1, b, d2) == LET p == YMD(a)  q == YMD(b) IN 360 * (q[1] - p[1]) + 30 * (q[2] - p[2]) + (d2 - d1)
Cap(d) == IF d = 31 THEN 30 ELSE d
Feb(j) == IF D(j) = 31 \/ LastFeb(j) THEN 30 ELSE D(j)

(* whole years back from the end; 28 February reached in a leap year is 29 February *)
Back(b, n) == LET t == YMD(b)  y == t[1] - n IN
              IF t[2] = 2 /\ t[3] >= 28 THEN DN(y, 2, MonthLen(y, 2)) ELSE DN(y, t[2], t[3])
WholeYears(a, b) == LET m == Y(b) - Y(a)        \* the answer is within a year of the difference of the years
                        S == {n \in {0} \cup (Max(0, m - 1) .. (m + 1)) : (n = 0 \/ Back(b, n) >= a)} IN CHOOSE n \in S : \A k \in S : k <= n
Afb(a, b) == LET n == WholeYears(a, b)  stub == IF n = 0 THEN b ELSE Back(b, n)
                 den == IF \E j \in LeapDays(a, stub) : a <= j /\ j < stub THEN 366 ELSE 365
             IN <<<<n, 1>>, <<stub - a, den>>>>
Isda(a, b) == IF Y(a) = Y(b) THEN <<<<b - a, YearLen(Y(a))>>>>
              ELSE <<<<Y(b) - Y(a) - 1, 1>>, <<DN(Y(a) + 1, 1, 1) - a, YearLen(Y(a))>>, <<b - DN(Y(b), 1, 1), YearLen(Y(b))>>>>
NoLeap(a, b) == b - a - Cardinality({j \in LeapDays(a, b) : a < j /\ j <= b})
ByYears(a, b) == <<<<b - a, IF \E y \in Touched(a, b) : IsLeap(y) THEN 366 ELSE 365>>>>

Signed == {"One_One", "Actual_360", "Actual_364", "Actual_366", "Actual_365_25", "Actual_365_Fixed", "Thirty_360_ISDA",
           "Thirty_E_360", "Thirty_E_360_ISDA", "Thirty_E_365", "Thirty_E_Plus_360", "Thirty_U_360"}
Forward == {"Actual_365_Actual", "Actual_365_Leap", "Actual_Actual_AFB", "Actual_Actual_ISDA", "No_Leap_360", "No_Leap_365"}
Convs == Signed \cup Forward
Fac(c, a, b) ==
  CASE c = "One_One" -> <<<<1, 1>>>>
    [] c = "Actual_360" -> <<<<b - a, 360>>>>
    [] c = "Actual_364" -> <<<<b - a, 364>>>>
    [] c = "Actual_366" -> <<<<b - a, 366>>>>
    [] c = "Actual_365_25" -> <<<<4 * (b - a), 1461>>>>
    [] c = "Actual_365_Fixed" -> <<<<b - a, 365>>>>
    [] c \in {"Actual_365_Actual", "Actual_365_Leap"} -> ByYears(a, b)
    [] c = "Actual_Actual_AFB" -> Afb(a, b)
    [] c = "Actual_Actual_ISDA" -> Isda(a, b)
    [] c = "No_Leap_360" -> <<<<NoLeap(a, b), 360>>>>
    [] c = "No_Leap_365" -> <<<<NoLeap(a, b), 365>>>>
    [] c = "Thirty_360_ISDA" -> LET d1 == Cap(D(a)) IN
         <<<<Thirty(a, d1, b, IF d1 = 30 /\ D(b) = 31 THEN 30 ELSE D(b)), 360>>>>
    [] c = "Thirty_E_360" -> <<<<Thirty(a, Cap(D(a)), b, Cap(D(b))), 360>>>>
    [] c = "Thirty_E_360_ISDA" -> <<<<Thirty(a, Feb(a), b, Feb(b)), 360>>>>
    [] c = "Thirty_E_365" -> <<<<Thirty(a, Feb(a), b, Feb(b)), 365>>>>
    [] c = "Thirty_E_Plus_360" -> <<<<IF D(b) = 31 THEN Thirty(a, Cap(D(a)), b + 1, 1) ELSE Thirty(a, Cap(D(a)), b, D(b)), 360>>>>
    [] OTHER -> LET d1 == Feb(a)
                    d2 == IF (D(b) = 31 /\ d1 = 30) \/ (LastFeb(a) /\ LastFeb(b)) THEN 30 ELSE D(b)
                IN <<<<Thirty(a, d1, b, d2), 360>>>>

Init == \/ (\E f \in Firsts : s = f /\ e \in {f + o : o \in Offsets})
        \/ (\E p \in Pairs : s = p[1] /\ e = p[2])
Next == FALSE /\ UNCHANGED <<s, e>>
Spec == Init /\ [][Next]_<<s, e>>

(* the algebra the property asks for, on the specification *)
Additive == {"Actual_360", "Actual_364", "Actual_366", "Actual_365_25", "Actual_365_Fixed", "No_Leap_360", "No_Leap_365"}
Sum1(f) == f[1][1]
AlgebraOK ==
  \* 30E+/360 counts one day from a 31st to itself: its second date moves to the 1st
  /\ \A c \in Convs \ {"One_One"} : (c = "Thirty_E_Plus_360" /\ D(s) = 31) \/ \A i \in DOMAIN Fac(c, s, s) : Fac(c, s, s)[i][1] = 0
  /\ \A c \in Additive : LET mid == (s + e) \div 2 IN
       (s <= e \/ c \in Signed) => Sum1(Fac(c, s, mid)) + Sum1(Fac(c, mid, e)) = Sum1(Fac(c, s, e))
  /\ s <= e => LET a == Afb(s, e) IN a[2][1] >= 0 /\ a[2][1] <= 366 /\ a[1][1] <= Y(e) - Y(s)
Emit == PrintT(ToJson([s |-> s, e |-> e, z |-> YMD(s),
          f |-> [c \in (IF s <= e THEN Convs ELSE Signed) |-> Fac(c, s, e)]]))
=============================================================================
