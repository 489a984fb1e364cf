------------------------------ MODULE LsmEmit -------------------------------
(* The formulas of the simulation that LongstaffSchwartz.tla runs on:        *)
(* log-returns x at a date, given a standard normal z.                       *)
(* j is the date's number, m the number of dates, next the log-return one    *)
(* date later.                                                               *)
EXTENDS Expr, TLC, Json
s == X("s")  k == X("k")  r == X("r")  v == X("v")  T == X("T")  m == X("m")  z == X("z")  j == X("j")
dt == Div(T, m)
Terminal == Add(Mul(Sub(r, Div(Sq(v), Two)), T), Mul3(v, Sqrt(T), z))
Bridge == Add(Mul(X("next"), Div(j, Add(j, One))), Mul3(v, Sqrt(Mul(dt, Div(j, Add(j, One)))), z))
Asset == Mul(s, Exp(X("x")))
Pay(side) == Max2(IF side = "call" THEN Sub(X("S"), k) ELSE Sub(k, X("S")), Zero)
Discount == Exp(Neg(Mul(r, dt)))
(* regressors: the Laguerre polynomials of the payoff y, of degree 0..4 *)
y == X("y")
RECURSIVE Lag(_)
Lag(i) == IF i = 0 THEN One ELSE IF i = 1 THEN Sub(One, y)
          ELSE Div(Sub(Mul(Sub(N(2 * i - 1), y), Lag(i - 1)), Mul(N(i - 1), Lag(i - 2))), N(i))
VARIABLES done
ESpec == done = TRUE /\ [][UNCHANGED done]_done
Emit == PrintT(ToJson([terminal |-> Terminal, bridge |-> Bridge, asset |-> Asset, call |-> Pay("call"), put |-> Pay("put"),
                       discount |-> Discount, basis |-> [i \in 1 .. 5 |-> Lag(i - 1)]]))
=============================================================================
