----------------------------- MODULE CurveLoss ------------------------------
(* How far a Nelson-Siegel-Svensson curve is from the current nodes of a     *)
(* curve: the mean over the nodes of ln cosh of the difference between the   *)
(* node and what the model calls the same kind of rate there.                *)
(* The nodes are those of the histories of Curve.tla.                        *)
EXTENDS Expr, TLC, Json
CONSTANT MaxNodes
NS == INSTANCE NelsonSiegel WITH done <- TRUE
r(i) == X("r" \o ToString(i))
m(i) == X("m" \o ToString(i))
Cosh(a) == Div(Add(Exp(a), Exp(Neg(a))), Two)
Dist(a, b) == Ln(Cosh(Sub(a, b)))
RECURSIVE Total(_)
Total(n) == IF n = 0 THEN Zero ELSE Add(Total(n - 1), Dist(r(n), m(n)))
Loss(n) == Div(Total(n), N(n))
Kinds == [spot |-> NS!Spot, forward |-> NS!Forward, discount |-> NS!Discount]
VARIABLES n
Init == n = 1
Next == n < MaxNodes /\ n' = n + 1
Spec == Init /\ [][Next]_n
(* the distance is symmetric in form, and its slope is the one of a loss that is quadratic near *)
(* zero and linear far away: (e^d - e^-d)/(e^d + e^-d), written out by differentiation          *)
Slope == D(Dist(r(1), m(1)), r(1))
EmitLoss == PrintT(ToJson([n |-> n, loss |-> Loss(n), slope |-> Slope, kinds |-> Kinds]))
=============================================================================
