------------------------------- MODULE Approx -------------------------------
(* When an assertion of approximate equality passes: both differences are    *)
(* numbers and neither exceeds the tolerance.  Numbers are <<class, units>>: *)
(* "n" with a whole number of units (of whatever size), the infinities and   *)
(* not-a-number.                                                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Units, Tols, Special
N(k) == <<"n", k>>
Nums(S) == {N(k) : k \in S} \cup {<<c, 0>> : c \in Special}
Opp(c) == IF c = "inf" THEN "neginf" ELSE "inf"
Diff(a, b) == IF a[1] = "nan" \/ b[1] = "nan" THEN a \* any not-a-number
              ELSE IF a[1] = "n" /\ b[1] = "n" THEN N(a[2] - b[2])
              ELSE IF a[1] # "n" /\ a[1] = b[1] THEN <<"nan", 0>>
              ELSE IF a[1] # "n" THEN a ELSE <<Opp(b[1]), 0>>
Bad(a, b) == a[1] = "nan" \/ b[1] = "nan"
Leq(a, b) == /\ ~Bad(a, b)
             /\ IF a[1] = "n" /\ b[1] = "n" THEN a[2] <= b[2] ELSE a[1] = b[1] \/ a[1] = "neginf" \/ b[1] = "inf"
Passes(x, y, d) == ~Bad(x, y) /\ Leq(Diff(x, y), d) /\ Leq(Diff(y, x), d)
VARIABLES x, y, d
ASpec == x \in Nums(Units) /\ y \in Nums(Units) /\ d \in Nums(Tols) /\ [][UNCHANGED <<x, y, d>>]_<<x, y, d>>
(* Laws: symmetric; a number equals itself within any tolerance that is not negative; monotone.     *)
Laws == /\ Passes(x, y, d) = Passes(y, x, d)
        /\ (x[1] = "n" /\ Leq(N(0), d)) => Passes(x, x, d)
        /\ \A e \in Nums(Tols) : (Passes(x, y, d) /\ Leq(d, e)) => Passes(x, y, e)
        /\ ~Leq(N(0), d) => ~Passes(x, y, d)
Emit == PrintT(ToJson([x |-> x, y |-> y, d |-> d, passes |-> Passes(x, y, d)]))
=============================================================================
