----------------------------- MODULE Activation ------------------------------
(* The activation functions as formulas of one variable, and their           *)
(* derivatives by the rules of Expr.                                         *)
EXTENDS Expr, TLC, Json
VARIABLES f
Z == X("x")
Def == [sigmoid |-> Div(One, Add(One, Fn("exp", Fn("neg", Z)))),
        logistic |-> Div(One, Add(One, Fn("exp", Fn("neg", Z)))),
        identity |-> Z,
        relu |-> Max2(Z, N(0)),
        gelu |-> Mul(Mul(Q(1, 2), Z), Add(One, Fn("erf", Div(Z, Fn("sqrt", N(2)))))),
        tanh |-> Fn("tanh", Z),
        softplus |-> Fn("ln", Add(One, Fn("exp", Z))),
        gaussian |-> Fn("exp", Fn("neg", Mul(Z, Z)))]
Init == f \in DOMAIN Def
Next == UNCHANGED f
Spec == Init /\ [][Next]_f
Emit == PrintT(ToJson([f |-> f, v |-> Def[f], d |-> D(Def[f], Z)]))
=============================================================================
