--------------------------- MODULE HolidayTables ---------------------------
(* Announced (non-computable) holidays by year, as <<year, {100*month + day}>>:   *)
(* lunar and lunisolar festivals and one-off bridge days, transcribed once from   *)
(* the published tables the calendars document.                                   *)
HongKongTable == {
  <<2004, {122, 123, 124, 405, 526, 622, 928, 1028, 1227}>>,
  <<2005, {209, 210, 211, 405, 516, 611, 918, 1018, 1227}>>,
  <<2006, {128, 129, 130, 405, 505, 601, 1007, 1227}>>,
  <<2007, {217, 218, 219, 405, 524, 619, 926, 1026, 1227}>>,
  <<2008, {207, 208, 209, 404, 512, 609, 915, 1016, 1229}>>,
  <<2009, {126, 127, 128, 404, 502, 628, 1003, 1026, 1228}>>,
  <<2010, {213, 214, 215, 405, 521, 616, 922, 1016, 1227}>>,
  <<2011, {202, 203, 204, 405, 510, 606, 912, 1005, 1227}>>,
  <<2012, {123, 124, 125, 404, 528, 623, 930, 1023, 1227}>>,
  <<2013, {210, 211, 212, 404, 517, 612, 919, 1014, 1227}>>,
  <<2014, {131, 201, 202, 405, 506, 602, 909, 1002, 1229}>>,
  <<2015, {219, 220, 221, 405, 525, 620, 927, 1021, 1228}>>,
  <<2016, {208, 209, 210, 404, 514, 609, 915, 1010, 1227}>>,
  <<2017, {128, 129, 130, 404, 503, 530, 1005, 1028, 1227}>>,
  <<2018, {216, 217, 218, 405, 522, 618, 925, 1017, 1227}>>,
  <<2019, {205, 206, 207, 405, 512, 607, 914, 1007, 1227}>>,
  <<2020, {125, 127, 128, 404, 530, 625, 1001, 1026, 1228}>> }

SingaporeTable == {
  <<2004, {122, 123, 201, 202, 602, 1111, 1114, 1115}>>,
  <<2005, {121, 209, 210, 522, 523, 1101, 1103}>>,
  <<2006, {110, 129, 130, 512, 1021, 1024}>>,
  <<2007, {218, 219, 531, 1013, 1108, 1219}>>,
  <<2008, {207, 208, 519, 1001, 1027, 1208}>>,
  <<2009, {126, 127, 509, 920, 921, 1115, 1116, 1127}>>,
  <<2010, {214, 215, 528, 910, 1105, 1117}>>,
  <<2011, {203, 204, 517, 830, 1026, 1106, 1107}>>,
  <<2012, {123, 124, 505, 819, 820, 1026, 1113}>>,
  <<2013, {210, 211, 212, 524, 808, 1015, 1102}>>,
  <<2014, {131, 201, 513, 728, 1005, 1006, 1022}>>,
  <<2015, {219, 220, 601, 717, 924, 1110}>>,
  <<2016, {208, 209, 521, 706, 912, 1029}>>,
  <<2017, {128, 129, 510, 625, 626, 901, 1018}>>,
  <<2018, {216, 217, 529, 615, 822, 1106}>>,
  <<2019, {205, 206, 519, 520, 605, 811, 812, 1027, 1028}>>,
  <<2020, {125, 126, 127, 507, 524, 525, 731, 1114}>>,
  <<2021, {212, 213, 513, 526, 720, 1104}>>,
  <<2022, {201, 202, 503, 515, 516, 710, 711, 1024}>>,
  <<2023, {122, 123, 124, 422, 602, 629, 1112, 1113}>>,
  <<2024, {210, 211, 212, 410, 522, 617, 1031}>> }

IndiaTable == {
  <<2000, {108, 304, 316, 320, 412, 1007, 1026, 1228}>>,
  <<2001, {221, 306, 310, 402, 1026, 1114, 1217}>>,
  <<2002, {223, 312, 329, 421, 1015, 1104, 1206}>>,
  <<2003, {212, 301, 318, 411, 1005, 1025, 1126}>>,
  <<2004, {202, 218, 307, 330, 1022, 1112, 1114}>>,
  <<2005, {121, 308, 326, 418, 422, 1012, 1101, 1104, 1115}>>,
  <<2006, {111, 226, 315, 406, 411, 1002, 1021, 1024, 1105}>>,
  <<2007, {130, 216, 304, 326, 331, 1013, 1021, 1109, 1124, 1220}>>,
  <<2008, {306, 322, 413, 418, 1002, 1009, 1028, 1113, 1209}>>,
  <<2009, {223, 311, 403, 407, 921, 928, 1017, 1102, 1128, 1228}>>,
  <<2010, {212, 301, 324, 428, 910, 1017, 1105, 1117, 1121, 1217}>>,
  <<2011, {302, 320, 412, 416, 831, 1006, 1026, 1107, 1110, 1206}>>,
  <<2012, {220, 308, 401, 405, 820, 1024, 1027, 1113, 1125, 1128}>>,
  <<2013, {310, 327, 419, 424, 809, 1013, 1016, 1103, 1114, 1117}>>,
  <<2014, {227, 317, 408, 413, 729, 1003, 1006, 1023, 1104, 1106}>>,
  <<2015, {217, 306, 328, 402, 719, 925, 1022, 1024, 1111, 1125}>>,
  <<2016, {307, 324, 415, 420, 706, 913, 1011, 1012, 1030, 1114}>>,
  <<2017, {224, 313, 404, 409, 626, 902, 930, 1001, 1019, 1104}>>,
  <<2018, {213, 302, 325, 329, 615, 822, 921, 1019, 1107, 1123}>>,
  <<2019, {304, 321, 413, 417, 605, 812, 910, 1008, 1027, 1112}>>,
  <<2020, {221, 310, 402, 406, 525, 801, 830, 1025, 1114, 1130}>>,
  <<2021, {311, 329, 421, 425, 514, 721, 820, 1015, 1104, 1119}>>,
  <<2022, {301, 318, 410, 414, 503, 710, 809, 1005, 1024, 1108}>>,
  <<2023, {218, 308, 330, 404, 422, 629, 729, 1024, 1112, 1127}>>,
  <<2024, {308, 325, 411, 417, 421, 617, 717, 1012, 1031, 1115}>>,
  <<2025, {226, 314, 331, 406, 410, 607, 706, 1002, 1020, 1105}>>,
  <<2026, {215, 304, 321, 326, 528, 626, 1020, 1108}>>,
  <<2027, {306, 310, 322, 415, 517, 616, 1009, 1029}>>,
  <<2028, {223, 227, 311, 403, 506, 604, 927, 1017}>>,
  <<2029, {211, 215, 301, 422, 425, 525, 1016, 1105}>> }

IndonesiaTable == {
  <<2000, {205, 406, 1026}>>,
  <<2001, {124, 326, 1015}>>,
  <<2002, {212, 315, 1004}>>,
  <<2003, {201, 305, 924}>>,
  <<2004, {122, 222, 912}>>,
  <<2005, {209, 210, 901}>>,
  <<2006, {130, 131, 330, 410, 822, 1023, 1026}>>,
  <<2007, {120, 219, 319, 331, 518, 601, 811, 1012, 1015}>>,
  <<2008, {110, 207, 307, 320, 502, 519, 520, 731, 929, 930, 1003, 1229}>>,
  <<2009, {126, 309, 326, 509, 720, 923, 1218}>>,
  <<2010, {215, 226, 316, 528, 709, 909, 913, 1207}>>,
  <<2011, {203, 215, 305, 517, 629, 1127}>>,
  <<2012, {123, 205, 323, 506, 617, 1115}>>,
  <<2013, {124, 211, 312, 525, 606, 1105}>>,
  <<2014, {114, 131, 331, 515, 527, 730, 1025}>>,
  <<2015, {103, 219, 321, 516, 602, 716, 720, 1014, 1224}>>,
  <<2016, {208, 309, 506, 522, 704, 705, 708, 1002, 1212}>>,
  <<2017, {128, 328, 424, 511, 921, 1201}>>,
  <<2018, {216, 317, 414, 529, 611, 612, 613, 618, 911, 1120}>>,
  <<2019, {205, 307, 403, 519, 603, 604, 605, 606, 607, 811, 901, 1109}>>,
  <<2020, {125, 322, 325, 507, 524, 525, 731, 820, 1029}>>,
  <<2021, {212, 311, 314, 512, 513, 514, 517, 526, 720, 810, 811, 1019, 1020}>>,
  <<2022, {201, 228, 303, 429, 502, 503, 504, 516, 710, 730, 1008}>>,
  <<2023, {123, 218, 322, 323, 419, 420, 421, 422, 423, 424, 602, 604, 629, 719, 928}>>,
  <<2024, {208, 209, 311, 312, 408, 409, 410, 411, 412, 415, 510, 523, 524, 617, 618, 707, 915}>>,
  <<2025, {129, 401, 402, 513, 607, 627, 905}>> }

NewZealandTable == {
  <<2022, {624}>>,
  <<2023, {714}>>,
  <<2024, {628}>>,
  <<2025, {620}>>,
  <<2026, {710}>>,
  <<2027, {625}>>,
  <<2028, {714}>>,
  <<2029, {706}>>,
  <<2030, {621}>>,
  <<2031, {711}>>,
  <<2032, {702}>>,
  <<2033, {624}>>,
  <<2034, {707}>>,
  <<2035, {629}>>,
  <<2036, {718}>>,
  <<2037, {710}>>,
  <<2038, {625}>>,
  <<2039, {715}>>,
  <<2040, {706}>>,
  <<2041, {719}>>,
  <<2042, {711}>>,
  <<2043, {703}>>,
  <<2044, {624}>>,
  <<2045, {707}>>,
  <<2046, {629}>>,
  <<2047, {719}>>,
  <<2048, {703}>>,
  <<2049, {625}>>,
  <<2050, {715}>>,
  <<2051, {630}>>,
  <<2052, {621}>> }

ChinaTable == {
  <<2004, {101, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 404, 501, 502, 503, 504, 505, 506, 507, 609, 915, 1001, 1002, 1003, 1004, 1005, 1006, 1007}>>,
  <<2005, {101, 103, 207, 208, 209, 210, 211, 212, 213, 214, 215, 404, 501, 502, 503, 504, 505, 506, 507, 609, 915, 1001, 1002, 1003, 1004, 1005, 1006, 1007}>>,
  <<2006, {101, 102, 103, 126, 127, 128, 129, 130, 131, 201, 202, 203, 404, 501, 502, 503, 504, 505, 506, 507, 609, 915, 1001, 1002, 1003, 1004, 1005, 1006, 1007}>>,
  <<2007, {101, 102, 103, 217, 218, 219, 220, 221, 222, 223, 224, 225, 404, 501, 502, 503, 504, 505, 506, 507, 609, 915, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1231}>>,
  <<2008, {101, 206, 207, 208, 209, 210, 211, 212, 404, 501, 502, 609, 915, 929, 930, 1001, 1002, 1003}>>,
  <<2009, {101, 102, 126, 127, 128, 129, 130, 406, 501, 528, 529, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008}>>,
  <<2010, {101, 215, 216, 217, 218, 219, 405, 503, 614, 615, 616, 922, 923, 924, 1001, 1002, 1003, 1004, 1005, 1006, 1007}>>,
  <<2011, {101, 103, 202, 203, 204, 205, 206, 207, 208, 403, 404, 405, 502, 604, 605, 606, 910, 911, 912, 1001, 1002, 1003, 1004, 1005, 1006, 1007}>>,
  <<2012, {101, 102, 103, 123, 124, 125, 126, 127, 128, 402, 403, 404, 430, 501, 622, 623, 624, 930, 1001, 1002, 1003, 1004, 1005, 1006, 1007}>>,
  <<2013, {101, 102, 103, 211, 212, 213, 214, 215, 404, 405, 429, 430, 501, 610, 611, 612, 919, 920, 1001, 1002, 1003, 1004, 1005, 1006, 1007}>>,
  <<2014, {101, 131, 201, 202, 203, 204, 205, 206, 407, 501, 502, 503, 602, 908, 1001, 1002, 1003, 1004, 1005, 1006, 1007}>>,
  <<2015, {101, 102, 103, 218, 219, 220, 221, 222, 223, 224, 405, 406, 501, 622, 903, 904, 927, 1001, 1002, 1003, 1004, 1005, 1006, 1007}>>,
  <<2016, {101, 208, 209, 210, 211, 212, 404, 501, 502, 609, 610, 915, 916, 1003, 1004, 1005, 1006, 1007}>>,
  <<2017, {101, 102, 127, 128, 129, 130, 131, 201, 202, 403, 404, 501, 529, 530, 1002, 1003, 1004, 1005, 1006}>>,
  <<2018, {101, 215, 216, 217, 218, 219, 220, 221, 405, 406, 430, 501, 618, 924, 1001, 1002, 1003, 1004, 1005, 1231}>>,
  <<2019, {101, 204, 205, 206, 207, 208, 405, 501, 502, 503, 607, 913, 1001, 1002, 1003, 1004, 1005, 1006, 1007}>>,
  <<2020, {101, 124, 127, 128, 129, 130, 131, 406, 501, 504, 505, 625, 626, 1001, 1002, 1005, 1006, 1007, 1008}>>,
  <<2021, {101, 211, 212, 215, 216, 217, 405, 503, 504, 505, 614, 920, 921, 1001, 1004, 1005, 1006, 1007}>>,
  <<2022, {101, 103, 131, 201, 202, 203, 204, 404, 405, 502, 503, 504, 603, 912, 1003, 1004, 1005, 1006, 1007}>>,
  <<2023, {101, 102, 123, 124, 125, 126, 127, 405, 501, 502, 503, 622, 623, 929, 1002, 1003, 1004, 1005, 1006}>> }

Announced(t, y) == UNION {r[2] : r \in {q \in t : q[1] = y}}
=============================================================================
