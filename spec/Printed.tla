------------------------------ MODULE Printed -------------------------------
(* What values print: the pieces of the text, in order, each either fixed or *)
(* the rendering of a field -- a number in plain decimals that reads back as *)
(* the same number, an ISO date, a name.  Items are all the kinds with every *)
(* combination of classes of their fields.                                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Numbers, Dates, Currencies, Ids, Factors, Conventions, Rolls
T(s) == [t |-> s]
F(n, as) == [f |-> n, as |-> as]
Cash == <<T("Cashflow("), F("amount", "num"), T(", "), F("date", "date"), T(")")>>
Money == <<T("Amount:\t"), F("amount", "num"), T("\nName:\t"), F("name", "str"), T("\nISO:\t"), F("code", "code")>>
Currency == <<T("Currency:\t"), F("name", "str"), T("\nISO Code:\t"), F("code", "code")>>
Code == <<T("Alphabetic: "), F("alpha", "str"), T(", Numeric: "), F("numeric", "str")>>
Vertex == <<T("Vertex { partials: ["), F("p0", "num"), T(", "), F("p1", "num"), T("], parents: ["), F("q0", "int"), T(", "), F("q1", "int"), T("] }")>>
Schedule == <<T("Dates:                     "), F("dates", "dates"), T("\nDay Count Factors:          "), F("factors", "nums"),
              T("\nDay Counting Convention:    "), F("conv", "str"), T("\nDate Rolling Convention:    "), F("roll", "str")>>
Known == <<T("Book already contains id "), F("id", "int")>>
Unknown == <<T("Book does not contain id "), F("id", "int")>>
Shape == [cash |-> Cash, money |-> Money, currency |-> Currency, code |-> Code, vertex |-> Vertex, schedule |-> Schedule, known |-> Known, unknown |-> Unknown]
(* a vertex made with two, one or no operands: what is not there is zero *)
Made(arity, a, b, i, j) == [k |-> "vertex", arity |-> arity, a |-> a, b |-> b, i |-> i, j |-> j,
                            p0 |-> IF arity = 0 THEN "zero" ELSE a, p1 |-> IF arity = 2 THEN b ELSE "zero", q0 |-> IF arity = 0 THEN 0 ELSE i, q1 |-> IF arity = 2 THEN j ELSE 0]
Items == { [k |-> "cash", amount |-> a, date |-> d] : a \in Numbers, d \in Dates }
    \cup { [k |-> "money", amount |-> a, cur |-> c] : a \in Numbers, c \in Currencies }
    \cup { [k |-> k, cur |-> c] : k \in {"currency", "code"}, c \in Currencies }
    \cup { Made(n, a, b, i, j) : n \in 0 .. 2, a \in Numbers, b \in Numbers, i \in Ids, j \in Ids }
    \cup { [k |-> k, id |-> i] : k \in {"known", "unknown"}, i \in Ids }
    \cup { [k |-> "schedule", dates |-> ds, factors |-> fs, conv |-> c, roll |-> r] : ds \in {<<>>} \cup {<<d>> : d \in Dates} \cup {<<d, e>> : d \in Dates, e \in Dates}, fs \in Factors, c \in Conventions, r \in Rolls }
VARIABLE x
PSpec == x \in Items /\ [][UNCHANGED x]_x
(* a vertex equals another one exactly when it prints the same (zeros without a sign) *)
Emit == PrintT(ToJson([x |-> x, text |-> Shape[x.k]]))
=============================================================================
