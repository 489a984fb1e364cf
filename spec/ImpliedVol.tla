----------------------------- MODULE ImpliedVol -----------------------------
(* Quoting a European option by volatility and back.  A quote is a price; it  *)
(* either lies below what the option is worth without volatility, or above    *)
(* what it is worth at any volatility, or has exactly one volatility: the one  *)
(* at which the model's formula (Greeks.tla) gives the quote.                  *)
EXTENDS Greeks
Intrinsic(m, z) == LET g == IF z = "call" THEN Sub(Fwd(m), Str(m)) ELSE Sub(Str(m), Fwd(m)) IN Max2(Zero, g)
Ceiling(m, z) == IF z = "call" THEN Fwd(m) ELSE Str(m)
Legs(m, z) == LET c == Models[m][2] o(d) == IF z = "call" THEN d ELSE Neg(d) IN Add(Mul(Fwd(m), Phi(o(d1(c)))), Mul(Str(m), Phi(o(d2(c)))))
BIntrinsic(z) == Max2(Zero, Mul(Exp(Neg(Mul(r, t))), IF z = "call" THEN Sub(f, k) ELSE Sub(k, f)))
BAtm == Mul3(Exp(Neg(Mul(r, t))), v, Sqrt(Div(t, Mul(Two, <<"pi">>))))   \* the price at strike f

(* Hagan et al.: the Black volatility of the SABR model, and its limit at the money *)
al == X("alpha")  be == X("beta")  ro == X("rho")  nu == X("nu")
LFK == Ln(Div(f, k))
FKb == Pow(Mul(f, k), Div(Sub(One, be), Two))
zz == Mul3(Div(nu, al), FKb, LFK)
chi == Ln(Div(Sub(Add(Sqrt(Add(Sub(One, Mul3(Two, ro, zz)), Sq(zz))), zz), ro), Sub(One, ro)))
Pow4(a) == Sq(Sq(a))
SabrTime == Add(One, Mul(t, Add3(Div(Mul(Sq(Sub(One, be)), Sq(al)), Mul(N(24), Sq(FKb))),
                                 Div(Mul4(ro, be, nu, al), Mul(N(4), FKb)),
                                 Div(Mul(Sub(Two, Mul(N(3), Sq(ro))), Sq(nu)), N(24)))))
SabrDen == Mul(FKb, Add3(One, Div(Mul(Sq(Sub(One, be)), Sq(LFK)), N(24)), Div(Mul(Pow4(Sub(One, be)), Pow4(LFK)), N(1920))))
SabrAway == Mul3(Div(al, SabrDen), Div(zz, chi), SabrTime)
SabrAtm == Mul(Div(al, SabrDen), SabrTime)

(* the protocol of quoting, on an abstract increasing price ladder: level i is the price at volatility i *)
CONSTANT Levels
VARIABLES quote, answer
Classify(p) == IF p < 0 THEN "-inf" ELSE IF p >= Levels THEN "inf" ELSE "vol"
IVInit == quote = -1 /\ answer = "-inf" /\ cur = ""
IVNext == \/ quote < Levels /\ quote' = quote + 1 /\ answer' = Classify(quote') /\ UNCHANGED cur
          \/ cur = "" /\ cur' \in {"bs", "gbsm", "bachelier", "sabr"} /\ UNCHANGED <<quote, answer>>
IVSpec == IVInit /\ [][IVNext]_<<quote, answer, cur>>
Monotone == [][(answer = "vol" => answer' # "-inf") /\ (answer = "inf" => answer' = "inf")]_<<quote, answer, cur>>
EmitIV ==
  IF quote # -1 THEN TRUE ELSE
  CASE cur \in {"bs", "gbsm"} -> \A z \in Sides : PrintT(ToJson([m |-> cur, side |-> z, price |-> Price(cur, z), vega |-> Vega(cur, z),
                                   lo |-> Intrinsic(cur, z), hi |-> Ceiling(cur, z), legs |-> Legs(cur, z)]))
    [] cur = "bachelier" -> \A z \in Sides : PrintT(ToJson([m |-> cur, side |-> z, price |-> BPrice(z), vega |-> D(BPrice(z), v), lo |-> BIntrinsic(z), atm |-> BAtm]))
    [] cur = "sabr" -> PrintT(ToJson([m |-> cur, side |-> "", away |-> SabrAway, atm |-> SabrAtm]))
    [] OTHER -> TRUE
=============================================================================
