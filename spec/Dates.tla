------------------------------- MODULE Dates -------------------------------
(* The proleptic Gregorian calendar on Julian day numbers, the computus, and *)
(* the arithmetic Hebrew calendar.                                           *)
EXTENDS Integers, Sequences, FiniteSets

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m = 2 -> IF IsLeap(y) THEN 29 ELSE 28
                    [] m \in {4, 6, 9, 11} -> 30
                    [] OTHER -> 31
YearLen(y) == IF IsLeap(y) THEN 366 ELSE 365

DN(y, m, d) ==
  LET a == (14 - m) \div 12  yy == y + 4800 - a  mm == m + 12 * a - 3
  IN d + ((153 * mm + 2) \div 5) + 365 * yy + (yy \div 4) - (yy \div 100) + (yy \div 400) - 32045

YMD(j) ==
  LET f == j + 1401 + ((((4 * j + 274277) \div 146097) * 3) \div 4) - 38
      e == 4 * f + 3
      g == (e % 1461) \div 4
      h == 5 * g + 2
      d == ((h % 153) \div 5) + 1
      m == (((h \div 153) + 2) % 12) + 1
  IN <<(e \div 1461) - 4716 + ((14 - m) \div 12), m, d>>

Y(j) == YMD(j)[1]
M(j) == YMD(j)[2]
D(j) == YMD(j)[3]
W(j) == (j % 7) + 1                       \* Monday = 1 .. Sunday = 7
Ordinal(j) == j - DN(Y(j), 1, 1) + 1
YearDays(y) == DN(y, 1, 1) .. DN(y, 12, 31)

(* nth and last given weekday of a month *)
Nth(y, m, w, n) == LET f == DN(y, m, 1) IN f + ((w - W(f)) % 7) + 7 * (n - 1)
Last(y, m, w) == LET l == DN(y, m, MonthLen(y, m)) IN l - ((W(l) - w) % 7)

(* Easter Sunday: Gregorian (Butcher) and Julian computus *)
Easter(y) ==
  LET a == y % 19  b == y \div 100  c == y % 100  d == b \div 4  e == b % 4
      f == (b + 8) \div 25  g == (b - f + 1) \div 3
      h == (19 * a + b - d - g + 15) % 30
      i == c \div 4  k == c % 4
      l == (32 + 2 * e + 2 * i - h - k) % 7
      mm == (a + 11 * h + 22 * l) \div 451
      x == h + l - 7 * mm + 114
  IN DN(y, x \div 31, (x % 31) + 1)
OrthodoxEaster(y) ==
  LET a == y % 4  b == y % 7  c == y % 19
      d == (19 * c + 15) % 30  e == (2 * a + 4 * b - d + 34) % 7
      x == d + e + 114
  IN DN(y, x \div 31, (x % 31) + 1) + (y \div 100) - (y \div 400) - 2

(* Hebrew calendar: months are numbered as the civil year runs, 1 = Tishri.   *)
HLeap(y) == (7 * y + 1) % 19 < 7
HElapsed(y) ==
  LET p == y - 1
      months == 235 * (p \div 19) + 12 * (p % 19) + ((7 * (p % 19) + 1) \div 19)
      parts == 204 + 793 * (months % 1080)
      hours == 5 + 12 * months + 793 * (months \div 1080) + (parts \div 1080)
      day == 1 + 29 * months + (hours \div 24)
      rest == 1080 * (hours % 24) + (parts % 1080)
      alt == IF \/ rest >= 19440
                \/ (day % 7 = 2 /\ rest >= 9924 /\ ~HLeap(y))
                \/ (day % 7 = 1 /\ rest >= 16789 /\ HLeap(p))
             THEN day + 1 ELSE day
  IN IF alt % 7 \in {0, 3, 5} THEN alt + 1 ELSE alt
HNewYear(y) == HElapsed(y) + 347997            \* Julian day number of 1 Tishri
HYearLen(y) == HNewYear(y + 1) - HNewYear(y)
(* lengths of the civil months of Hebrew year y, in order *)
HMonths(y) ==
  LET len == HYearLen(y)
      hesh == IF len % 10 = 5 THEN 30 ELSE 29
      kis == IF len % 10 = 3 THEN 29 ELSE 30
  IN IF HLeap(y) THEN <<30, hesh, kis, 29, 30, 30, 29, 30, 29, 30, 29, 30, 29>>
                 ELSE <<30, hesh, kis, 29, 30, 29, 30, 29, 30, 29, 30, 29>>
RECURSIVE HMonthStart(_, _)
HMonthStart(y, k) == IF k = 1 THEN HNewYear(y) ELSE HMonthStart(y, k - 1) + HMonths(y)[k - 1]
(* religious-order names: index of a month in the civil year *)
HTishri == 1
HAdar(y) == IF HLeap(y) THEN 7 ELSE 6          \* the Adar of Purim
HNisan(y) == HAdar(y) + 1
HIyar(y) == HAdar(y) + 2
HSivan(y) == HAdar(y) + 3
HAv(y) == HAdar(y) + 5
HElul(y) == HAdar(y) + 6
HDate(y, k, d) == HMonthStart(y, k) + d - 1
=============================================================================
