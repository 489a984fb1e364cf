---------------------------- MODULE NelsonSiegel ----------------------------
(* The Nelson-Siegel-Svensson curve.  The spot rate is the primitive; the    *)
(* forward rate is the derivative of spot rate times maturity, taken by D,   *)
(* and the discount factor that of continuous compounding of a percentage.   *)
EXTENDS Expr, TLC, Json
tau == X("tau")
b(i) == X("b" \o ToString(i))
l1 == X("l1")  l2 == X("l2")
Decay(l) == Exp(Neg(Div(tau, l)))
Slope(l) == Div(Sub(One, Decay(l)), Div(tau, l))
Hump(l) == Sub(Slope(l), Decay(l))
Spot == Add(Add(b(0), Mul(b(1), Slope(l1))), Add(Mul(b(2), Hump(l1)), Mul(b(3), Hump(l2))))
Forward == D(Mul(tau, Spot), tau)
Discount == Exp(Neg(Div(Mul(tau, Spot), N(100))))
VARIABLES done
NSpec == done = TRUE /\ [][UNCHANGED done]_done
Emit == PrintT(ToJson([spot |-> Spot, forward |-> Forward, discount |-> Discount]))
=============================================================================
