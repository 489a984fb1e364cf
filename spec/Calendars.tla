----------------------------- MODULE Calendars -----------------------------
(* The documented public holidays of every supported market, as a set of     *)
(* days for each year.                                                       *)
EXTENDS Dates, HolidayTables

Mon == 1  Tue == 2  Wed == 3  Thu == 4  Fri == 5  Sat == 6  Sun == 7

(* building blocks *)
Fx(y, S) == {DN(y, x \div 100, x % 100) : x \in S}                 \* fixed dates as 100*m+d
On(y, m, ds, ws) == {j \in {DN(y, m, d) : d \in ds} : W(j) \in ws}  \* those of the days on a weekday
East(y, S) == {Easter(y) + k : k \in S}                             \* offsets from Easter Sunday
(* substitution rules: the day itself, and its replacement when it falls on a weekend *)
NextMonday(j) == {j} \cup (IF W(j) \in {Sat, Sun} THEN {j + 8 - W(j)} ELSE {})
SundayToMonday(j) == {j} \cup (IF W(j) = Sun THEN {j + 1} ELSE {})
PlusTwo(j) == {j} \cup (IF W(j) \in {Sat, Sun} THEN {j + 2} ELSE {})
Nearest(j) == {j} \cup (IF W(j) = Sun THEN {j + 1} ELSE IF W(j) = Sat THEN {j - 1} ELSE {})
Since(y, y0, S) == IF y >= y0 THEN S ELSE {}
Between(y, a, b, S) == IF y >= a /\ y <= b THEN S ELSE {}
In(y, ys, S) == IF y \in ys THEN S ELSE {}

Argentina(y) ==
  Fx(y, {101, 501, 525, 709, 1208, 1224, 1225, 1231}) \cup East(y, {-3, -2})
  \cup {Nth(y, 6, Mon, 3), Nth(y, 8, Mon, 3)}
  \cup On(y, 10, {10, 11, 12, 15, 16}, {Mon}) \cup On(y, 12, {30}, {Fri})

Australia(y) ==
  NextMonday(DN(y, 1, 1)) \cup NextMonday(DN(y, 1, 26)) \cup East(y, {-2, 1}) \cup Fx(y, {425})
  \cup {Nth(y, 6, Mon, 2), Nth(y, 8, Mon, 1), Nth(y, 10, Mon, 1)}
  \cup PlusTwo(DN(y, 12, 25)) \cup PlusTwo(DN(y, 12, 26)) \cup In(y, {2022}, Fx(y, {922}))

Austria(y) ==
  Fx(y, {101, 106, 501, 815, 1101, 1208, 1225, 1226}) \cup East(y, {1, 39, 50, 60})
  \cup Since(y, 1967, Fx(y, {1026})) \cup Between(y, 1919, 1934, Fx(y, {1112}))

SundayTwoDays(j) == {j} \cup (IF W(j) = Sun THEN {j + 1, j + 2} ELSE {})
Botswana(y) ==
  SundayTwoDays(DN(y, 1, 1)) \cup East(y, {-2, 1, 39}) \cup SundayToMonday(DN(y, 5, 1))
  \cup SundayToMonday(DN(y, 7, 1)) \cup {Nth(y, 7, Mon, 3)} \cup SundayToMonday(DN(y, 9, 30))
  \cup SundayTwoDays(DN(y, 10, 1)) \cup Fx(y, {1225}) \cup SundayToMonday(DN(y, 12, 26))

Brazil(y) ==
  Fx(y, {101, 421, 501, 907, 1012, 1102, 1115, 1225}) \cup Since(y, 2024, Fx(y, {1120}))
  \cup East(y, {-48, -47, -2, 60})

Canada(y) ==
  NextMonday(DN(y, 1, 1)) \cup Since(y, 2008, {Nth(y, 2, Mon, 3)}) \cup East(y, {-2})
  \cup On(y, 5, 18..24, {Mon}) \cup NextMonday(DN(y, 7, 1))
  \cup {Nth(y, 8, Mon, 1), Nth(y, 9, Mon, 1), Nth(y, 10, Mon, 2)}
  \cup Since(y, 2021, NextMonday(DN(y, 9, 30))) \cup NextMonday(DN(y, 11, 11))
  \cup PlusTwo(DN(y, 12, 25)) \cup PlusTwo(DN(y, 12, 26))

Chile(y) ==
  Fx(y, {101, 501, 521, 716, 815, 918, 919, 1101, 1208, 1225})
  \cup Since(y, 2017, On(y, 1, {2}, {Mon})) \cup East(y, {-2, -1})
  \cup Since(y, 2021, Fx(y, {621}))
  \cup On(y, 6, 26..29, {Mon}) \cup On(y, 7, {2}, {Mon})          \* St Peter and St Paul, nearest Monday
  \cup Since(y, 2007, On(y, 9, {17}, {Mon})) \cup Since(y, 2017, On(y, 9, {17}, {Fri}))
  \cup Since(y, 2007, On(y, 9, {20}, {Fri}))
  \cup On(y, 10, (9..12) \cup {15}, {Mon})
  \cup Since(y, 2008, On(y, 10, {27}, {Fri}) \cup On(y, 10, {31}, {Mon, Thu, Fri, Sat, Sun})
                      \cup On(y, 11, {2}, {Fri}))

China(y) ==
  IF y <= 2003 THEN Fx(y, {101, 404, 609, 915} \cup (501..507) \cup (1001..1007))
  ELSE IF y <= 2023 THEN Fx(y, Announced(ChinaTable, y))
  ELSE Fx(y, {101})

CzechRepublic(y) ==
  Fx(y, {101, 501, 508, 705, 706, 928, 1028, 1117, 1224, 1225, 1226}) \cup East(y, {1})
  \cup Since(y, 2016, East(y, {-2})) \cup In(y, {2004}, Fx(y, {102, 1231}))

Denmark(y) ==
  East(y, {-3, -2, 1, 39, 50}) \cup Between(y, 0, 2023, East(y, {26})) \cup Since(y, 2009, East(y, {40}))
  \cup Fx(y, {101, 605, 1224, 1225, 1226, 1231})

Finland(y) ==
  Fx(y, {101, 106, 501, 1206, 1224, 1225, 1226}) \cup East(y, {-2, 1, 39}) \cup On(y, 6, 18..24, {Fri})

France(y) ==
  Fx(y, {101, 501, 508, 714, 815, 1101, 1111, 1225}) \cup East(y, {1, 39, 50})

Germany(y) ==
  Fx(y, {101, 501, 1003, 1224, 1225, 1226}) \cup East(y, {-2, 1, 39, 50, 60})

HongKong(y) ==
  SundayToMonday(DN(y, 1, 1)) \cup East(y, {-2, 1}) \cup SundayToMonday(DN(y, 5, 1))
  \cup SundayToMonday(DN(y, 7, 1)) \cup SundayToMonday(DN(y, 10, 1)) \cup Fx(y, {1225, 1226})
  \cup Fx(y, Announced(HongKongTable, y))

Hungary(y) ==
  Fx(y, {101, 315, 501, 820, 1023, 1101, 1225, 1226}) \cup East(y, {-2, 1, 50})

Iceland(y) ==
  Fx(y, {101, 501, 617, 1224, 1225, 1226, 1231}) \cup East(y, {-3, -2, 1, 39, 50})
  \cup On(y, 4, 19..25, {Thu}) \cup {Nth(y, 8, Mon, 1)}

India(y) ==
  Fx(y, {126, 501, 815, 1002, 1225}) \cup East(y, {-2}) \cup Fx(y, Announced(IndiaTable, y))

Indonesia(y) ==
  Fx(y, {101, 501, 601, 817, 1225, 1226}) \cup East(y, {-2, 39}) \cup Fx(y, Announced(IndonesiaTable, y))

(* Israel: the days of the Hebrew years overlapping the civil year *)
IsraelHebrew(h) ==
  LET H(k, d) == HDate(h, k, d)
      memorial(j) ==  \* 4-5 Iyar and its movable observances
        (j - HMonthStart(h, HIyar(h)) + 1) IN
  {H(1, 1), H(1, 2), H(1, 9), H(1, 10), H(1, 14), H(1, 15), H(1, 22), H(1, 23),
   H(HAdar(h), 14), H(HNisan(h), 14), H(HNisan(h), 15), H(HNisan(h), 20), H(HNisan(h), 21),
   H(HSivan(h), 5), H(HSivan(h), 6), H(HAv(h), 9), H(HElul(h), 29)}
  \cup {j \in {H(HAv(h), 10)} : W(j) = Sun}
  \cup {j \in {H(HIyar(h), d) : d \in 2..6} :
          <<memorial(j), W(j)>> \in {<<3, Thu>>, <<4, Thu>>, <<2, Wed>>, <<3, Wed>>,
                                     <<5, Mon>>, <<6, Tue>>, <<5, Wed>>, <<4, Tue>>}}
Israel(y) == {j \in IsraelHebrew(y + 3760) \cup IsraelHebrew(y + 3761) : Y(j) = y}

Italy(y) ==
  Fx(y, {101, 106, 425, 501, 602, 815, 1101, 1208, 1225, 1226}) \cup East(y, {1})

Mexico(y) ==
  Fx(y, {101, 501, 916, 1225}) \cup {Nth(y, 2, Mon, 1), Nth(y, 3, Mon, 3), Nth(y, 11, Mon, 3)}
  \cup (IF (y - 2018) % 6 = 0 THEN Fx(y, {1001}) ELSE {})

Netherlands(y) ==
  Fx(y, {101, 1225, 1226}) \cup East(y, {-2, 0, 1, 39, 49, 50})
  \cup {IF W(DN(y, 4, 27)) = Sun THEN DN(y, 4, 26) ELSE DN(y, 4, 27)}
  \cup (IF y >= 2020 /\ y % 5 = 0 THEN Fx(y, {505}) ELSE {})

NewZealand(y) ==
  PlusTwo(DN(y, 1, 1)) \cup PlusTwo(DN(y, 1, 2)) \cup On(y, 1, 19..25, {Mon})
  \cup (IF y > 2013 THEN NextMonday(DN(y, 2, 6)) \cup NextMonday(DN(y, 4, 25)) ELSE Fx(y, {206, 425}))
  \cup East(y, {-2, 1}) \cup {Nth(y, 6, Mon, 1), Nth(y, 10, Mon, 4)}
  \cup PlusTwo(DN(y, 12, 25)) \cup PlusTwo(DN(y, 12, 26))
  \cup Fx(y, Announced(NewZealandTable, y))

Singapore(y) ==
  SundayToMonday(DN(y, 1, 1)) \cup East(y, {-2}) \cup SundayToMonday(DN(y, 5, 1))
  \cup SundayToMonday(DN(y, 8, 9)) \cup SundayToMonday(DN(y, 12, 25))
  \cup Fx(y, Announced(SingaporeTable, y))

Switzerland(y) ==
  Fx(y, {101, 102, 501, 801, 1224, 1225, 1226, 1231}) \cup East(y, {-2, 1, 39, 50})

UnitedKingdom(y) ==
  NextMonday(DN(y, 1, 1)) \cup East(y, {-2, 1})
  \cup (IF y \in {1995, 2020} THEN Fx(y, {508}) ELSE {Nth(y, 5, Mon, 1)})
  \cup (IF y \in {2002, 2012, 2022} THEN {} ELSE {Last(y, 5, Mon)})
  \cup {Last(y, 8, Mon)} \cup PlusTwo(DN(y, 12, 25)) \cup PlusTwo(DN(y, 12, 26))
  \cup In(y, {1999}, Fx(y, {1231})) \cup In(y, {2002}, Fx(y, {603, 604})) \cup In(y, {2011}, Fx(y, {429}))
  \cup In(y, {2012}, Fx(y, {604, 605})) \cup In(y, {2022}, Fx(y, {602, 603, 919})) \cup In(y, {2023}, Fx(y, {508}))

UnitedStates(y) ==
  SundayToMonday(DN(y, 1, 1)) \cup (IF W(DN(y + 1, 1, 1)) = Sat THEN {DN(y, 12, 31)} ELSE {})
  \cup Since(y, 1983, {Nth(y, 1, Mon, 3)})
  \cup (IF y >= 1971 THEN {Nth(y, 2, Mon, 3), Last(y, 5, Mon), Nth(y, 10, Mon, 2)}
                     ELSE Nearest(DN(y, 2, 22)) \cup Nearest(DN(y, 5, 30)))
  \cup Since(y, 2022, Nearest(DN(y, 6, 19))) \cup Nearest(DN(y, 7, 4)) \cup {Nth(y, 9, Mon, 1)}
  \cup (IF y >= 1971 /\ y <= 1977 THEN {Nth(y, 10, Mon, 4)} ELSE Nearest(DN(y, 11, 11)))
  \cup {Nth(y, 11, Thu, 4)} \cup Nearest(DN(y, 12, 25))

Markets == {"Argentina", "Australia", "Austria", "Botswana", "Brazil", "Canada", "Chile", "China",
  "CzechRepublic", "Denmark", "Finland", "France", "Germany", "HongKong", "Hungary", "Iceland", "India",
  "Indonesia", "Israel", "Italy", "Mexico", "Netherlands", "NewZealand", "Singapore", "Switzerland",
  "UnitedKingdom", "UnitedStates", "None", "Weekends"}

Hol(k, y) ==
  CASE k = "Argentina" -> Argentina(y) [] k = "Australia" -> Australia(y) [] k = "Austria" -> Austria(y)
    [] k = "Botswana" -> Botswana(y) [] k = "Brazil" -> Brazil(y) [] k = "Canada" -> Canada(y)
    [] k = "Chile" -> Chile(y) [] k = "China" -> China(y) [] k = "CzechRepublic" -> CzechRepublic(y)
    [] k = "Denmark" -> Denmark(y) [] k = "Finland" -> Finland(y) [] k = "France" -> France(y)
    [] k = "Germany" -> Germany(y) [] k = "HongKong" -> HongKong(y) [] k = "Hungary" -> Hungary(y)
    [] k = "Iceland" -> Iceland(y) [] k = "India" -> India(y) [] k = "Indonesia" -> Indonesia(y)
    [] k = "Israel" -> Israel(y) [] k = "Italy" -> Italy(y) [] k = "Mexico" -> Mexico(y)
    [] k = "Netherlands" -> Netherlands(y) [] k = "NewZealand" -> NewZealand(y)
    [] k = "Singapore" -> Singapore(y) [] k = "Switzerland" -> Switzerland(y)
    [] k = "UnitedKingdom" -> UnitedKingdom(y) [] k = "UnitedStates" -> UnitedStates(y)
    [] OTHER -> {}

WeekendDays(k) == IF k = "Israel" THEN {Fri, Sat} ELSE {Sat, Sun}
=============================================================================
