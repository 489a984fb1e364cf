---------------------------- MODULE BusinessDays ----------------------------
(* Business days, rolling and counting over a set NB of non-business days.   *)
EXTENDS Calendars
NonBusiness(k, S) == {j \in S : W(j) \in WeekendDays(k)}
                     \cup UNION {Hol(k, y) : y \in {Y(j) : j \in S}} 
RECURSIVE Nxt(_, _), Prv(_, _)
Nxt(NB, j) == IF j \in NB THEN Nxt(NB, j + 1) ELSE j
Prv(NB, j) == IF j \in NB THEN Prv(NB, j - 1) ELSE j
SameMonth(i, j) == LET a == YMD(i)  b == YMD(j) IN a[1] = b[1] /\ a[2] = b[2]
Convs == <<"Actual", "Following", "ModifiedFollowing", "Preceding", "ModifiedPreceding", "ModifiedRolling">>
Roll(NB, c, j) ==
  CASE c = "Actual" -> j
    [] c \in {"Following", "ModifiedRolling"} -> Nxt(NB, j)
    [] c = "Preceding" -> Prv(NB, j)
    [] c = "ModifiedFollowing" -> LET r == Nxt(NB, j) IN IF SameMonth(r, j) THEN r ELSE Prv(NB, j)
    [] OTHER -> LET r == Prv(NB, j) IN IF SameMonth(r, j) THEN r ELSE Nxt(NB, j)
BusinessCount(NB, a, b) == Cardinality((a .. b) \ NB)

(* what the property asks of a roll *)
RollOK(NB, c, j) ==
  LET r == Roll(NB, c, j)
      up == r >= j /\ \A i \in j .. (r - 1) : i \in NB
      dn == r <= j /\ \A i \in (r + 1) .. j : i \in NB
  IN /\ c # "Actual" => r \notin NB
     /\ (c = "Actual" \/ j \notin NB) => r = j
     /\ c \in {"Following", "ModifiedRolling"} => up
     /\ c = "Preceding" => dn
     /\ c = "ModifiedFollowing" => IF SameMonth(Nxt(NB, j), j) THEN up ELSE dn
     /\ c = "ModifiedPreceding" => IF SameMonth(Prv(NB, j), j) THEN dn ELSE up
=============================================================================
