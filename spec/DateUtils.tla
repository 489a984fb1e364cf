------------------------------ MODULE DateUtils -----------------------------
(* One state per month: every date helper's answer for it; one state per     *)
(* (start, end): the helpers on date ranges.                                 *)
EXTENDS Dates, TLC, Json
CONSTANTS Years, Ranges
VARIABLES kind, y, m, r
Init == \/ kind = "month" /\ y \in Years /\ m \in 1 .. 12 /\ r = <<0, 0>>
        \/ kind = "range" /\ r \in Ranges /\ y = 0 /\ m = 0
Next == FALSE /\ UNCHANGED <<kind, y, m, r>>
Spec == Init /\ [][Next]_<<kind, y, m, r>>
L == MonthLen(y, m)
MonthOK == kind = "month" =>
  /\ DN(y, m, L) + 1 = DN(IF m = 12 THEN y + 1 ELSE y, (m % 12) + 1, 1)
  /\ \A w \in 1 .. 7 : LET f == Nth(y, m, w, 1)  l == Last(y, m, w) IN
       /\ W(f) = w /\ W(l) = w /\ YMD(f)[2] = m /\ YMD(f)[3] <= 7 /\ YMD(l)[2] = m /\ YMD(l)[3] > L - 7
Yrs == Y(r[1]) .. Y(r[2])
Emit ==
  IF kind = "month" THEN
    PrintT(ToJson([y |-> y, m |-> m, b |-> DN(y, m, 1),
      t |-> <<W(DN(y, m, 1)), W(DN(y, m, L))>> \o [w \in 1 .. 7 |-> Nth(y, m, w, 1)] \o [w \in 1 .. 7 |-> Last(y, m, w)],
      f |-> [d \in 1 .. L |-> <<d = 1, d = L, m = 2 /\ d = L>>],
      w |-> [d \in 1 .. L |-> W(DN(y, m, d))],
      o |-> [d \in 1 .. L |-> Ordinal(DN(y, m, d))]]))
  ELSE LET n == r[2] - r[1]  ys == [i \in 1 .. (Y(r[2]) - Y(r[1]) + 1) |-> Y(r[1]) + i - 1] IN
    PrintT(ToJson([r |-> r,
      a |-> <<ys, [i \in DOMAIN ys |-> YearLen(ys[i])], \E i \in DOMAIN ys : IsLeap(ys[i]),
              IF n < 0 THEN -n ELSE n, Cardinality({i \in DOMAIN ys : IsLeap(ys[i])})>>]))
=============================================================================
