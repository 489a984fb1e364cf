------------------------------- MODULE Heston -------------------------------
(* European options under Heston's stochastic volatility model               *)
(*   dS = (r - q) S dt + sqrt(v) S dW1,  dv = kappa (theta - v) dt           *)
(*   + sigma sqrt(v) dW2,  d<W1, W2> = rho dt.                               *)
(* P1 and P2, the probabilities of ending in the money under the stock and   *)
(* the money-market numeraire, are Fourier integrals of the affine           *)
(* characteristic functions exp(C + D v + i p ln s).  C and D are given in   *)
(* closed form, and tied to the model by the equations they solve:           *)
(* Riccati and Drift are the residuals of those equations (identically 0),   *)
(* Start their initial values, and Shift the change of numeraire between     *)
(* the two functions.  The greeks are derivatives of the price, taken by D   *)
(* under the integral sign; nothing about a greek is written down twice.     *)
EXTENDS Greeks
p == X("p")             \* the integration variable
I == X("i")             \* the imaginary unit
ka == X("kappa")  th == X("theta")  si == X("sigma")  ro == X("rho")
(* the value of a formula's real part, integrated over 0 < p < infinity *)
Integral(a) == <<"int", <<"re", a>>>>
U(j) == IF j = 1 THEN Q(1, 2) ELSE Neg(Q(1, 2))
B(j) == IF j = 1 THEN Sub(ka, Mul(ro, si)) ELSE ka
ip(w) == Mul(I, w)
Beta(j, w) == Sub(B(j), Mul(Mul(ro, si), ip(w)))
Root(j, w) == Sqrt(Sub(Sq(Beta(j, w)), Mul(Sq(si), Sub(Mul3(Two, U(j), ip(w)), Sq(w)))))
Minus(j, w) == Sub(Beta(j, w), Root(j, w))
G(j, w) == Div(Minus(j, w), Add(Beta(j, w), Root(j, w)))
Decay(j, w) == Exp(Neg(Mul(Root(j, w), t)))
DD(j, w) == Mul(Div(Minus(j, w), Sq(si)), Div(Sub(One, Decay(j, w)), Sub(One, Mul(G(j, w), Decay(j, w)))))
CC(j, w) == Add(Mul3(Sub(r, q), ip(w), t),
                Mul(Div(Mul(ka, th), Sq(si)),
                    Sub(Mul(Minus(j, w), t), Mul(Two, Ln(Div(Sub(One, Mul(G(j, w), Decay(j, w))), Sub(One, G(j, w))))))))
CF(j, w) == Exp(Add3(CC(j, w), Mul(DD(j, w), v), Mul(ip(w), Ln(s))))
Prob(j) == Add(Q(1, 2), Div(Integral(Div(Mul(Exp(Neg(Mul(ip(p), Ln(k)))), CF(j, p)), ip(p))), <<"pi">>))
SPV == Mul(s, Exp(Neg(Mul(q, t))))
KPV == Mul(k, Exp(Neg(Mul(r, t))))
Call == Sub(Mul(SPV, Prob(1)), Mul(KPV, Prob(2)))
HPrice(z) == IF z = "call" THEN Call ELSE Add(Sub(Call, SPV), KPV)

(* the derivative passes under the integral sign; re and the integral are linear *)
RECURSIVE DI(_, _)
DI(e, x) ==
  IF e[1] \in Leaf \/ ~Free(e, x) THEN D(e, x)
  ELSE CASE e[1] = "int" -> <<"int", <<"re", D(e[2][2], x)>>>>
         [] e[1] = "add" -> Add(DI(e[2], x), DI(e[3], x))
         [] e[1] = "sub" -> Sub(DI(e[2], x), DI(e[3], x))
         [] e[1] = "mul" -> Add(Mul(DI(e[2], x), e[3]), Mul(e[2], DI(e[3], x)))
         [] e[1] = "div" -> Div(DI(e[2], x), e[3])               \* only ever by pi
         [] OTHER -> D(e, x)
HGreek(g, z) ==
  CASE g = "price" -> HPrice(z)
    [] g = "delta" -> DI(HPrice(z), s)
    [] g = "gamma" -> DI(DI(HPrice(z), s), s)
    [] g = "rho" -> DI(HPrice(z), r)

(* what makes C and D the right functions: residuals that vanish identically *)
Riccati(j) == Sub(D(DD(j, p), t), Add(Sub(Mul(Div(Sq(si), Two), Sq(DD(j, p))), Mul(Beta(j, p), DD(j, p))), Sub(Mul(U(j), ip(p)), Div(Sq(p), Two))))
Drift(j) == Sub(D(CC(j, p), t), Add(Mul(Mul(ka, th), DD(j, p)), Mul(Sub(r, q), ip(p))))
(* f1(p) = f2(p - i) / (s e^{(r - q) t}) *)
Shift == Sub(Mul(CF(1, p), Mul(s, Exp(Mul(Sub(r, q), t)))), CF(2, Sub(p, I)))

(* the order of the questions does not matter: every greek of both sides is asked of one model value *)
HNext == \/ cur = "" /\ cur' \in {"price", "delta", "gamma", "rho", "laws"}
         \/ cur # "" /\ cur' = ""
HSpec == cur = "" /\ [][HNext]_cur
EmitHeston ==
  CASE cur = "" -> TRUE
    [] cur = "laws" -> /\ \A j \in {1, 2} : PrintT(ToJson([g |-> "laws", j |-> j, riccati |-> Riccati(j), drift |-> Drift(j), c |-> CC(j, p), d |-> DD(j, p), cf |-> CF(j, p)]))
                       /\ PrintT(ToJson([g |-> "shift", shift |-> Shift]))
                       /\ \A z \in Sides : PrintT(ToJson([g |-> "limit", side |-> z, bs |-> Price("merton", z)]))
    [] OTHER -> \A z \in Sides : PrintT(ToJson([g |-> cur, side |-> z, e |-> HGreek(cur, z)]))
=============================================================================
