---------------------------- MODULE Quadrature ------------------------------
(* Definite integrals with a known value: antiderivatives A, whose derivative *)
(* -- taken here, symbolically -- is the integrand.  dom names the intervals   *)
(* on which A is an antiderivative ("line", "pos" for x > 0, "half" for x >= 0  *)
(* with a singular derivative at 0, "unit" for [-1, 1] singular at both ends). *)
EXTENDS Expr, TLC, Json
VARIABLE done
x == X("x")
Sin(a) == Fn("sin", a)
Cos(a) == Fn("cos", a)
Atan(a) == Fn("atan", a)
Tanh(a) == Fn("tanh", a)
RECURSIVE PowX(_)
PowX(k) == IF k = 1 THEN x ELSE Mul(x, PowX(k - 1))
A == [ line |-> [k \in 1 .. 9 |-> PowX(k)] \o
               <<Exp(x), Exp(Mul(N(-2), x)), Sin(Mul(N(3), x)), Cos(x), Atan(x), Tanh(x), Mul(x, Exp(x)), Mul(Sq(x), Sin(x)),
                Sub(Mul(N(4), PowX(5)), Mul(N(7), PowX(2))), Ln(Add(One, Sq(x))), Exp(Neg(Sq(x))), Phi(Mul(N(2), x)),
                Mul(Exp(Neg(x)), Cos(Mul(Two, x))), Neg(Div(One, Add(Two, Sin(x))))>>,
       pos |-> <<Ln(x), Div(One, x), Sub(Mul(x, Ln(x)), x), Exp(Div(One, x)), Ln(Add(x, Sqrt(x)))>>,
       half |-> <<Sqrt(x), Mul(x, Sqrt(x)), Mul(x, Ln(x)), Mul(Sqrt(x), Exp(x)), Sin(Sqrt(x))>>,
       unit |-> <<Fn("asin", x), Sqrt(Sub(One, Sq(x)))>> ]
(* strictly increasing functions whose roots are searched: f(x) = +-(G(x) - G(root)) *)
G == [ line |-> <<x, Add(PowX(3), x), Exp(x), Tanh(x), Atan(x), Add(x, Div(Sin(x), Two)), Fn("sinh", x), Mul(PowX(3), One)>>,
       pos |-> <<Ln(x), PowX(2), Sqrt(x), Sub(x, Div(One, x)), Mul(x, Exp(x))>> ]
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ \A dom \in DOMAIN A : \A i \in DOMAIN A[dom] : PrintT(ToJson([dom |-> dom, A |-> A[dom][i], f |-> D(A[dom][i], x)]))
        /\ \A dom \in DOMAIN G : \A i \in DOMAIN G[dom] : PrintT(ToJson([dom |-> dom, G |-> G[dom][i], d |-> D(G[dom][i], x)]))
Spec == Init /\ [][Next]_done
=============================================================================
