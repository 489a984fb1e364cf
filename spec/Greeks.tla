------------------------------- MODULE Greeks -------------------------------
(* European options under the generalised Black-Scholes models: the price as  *)
(* one formula of the model's own parameters, and every greek as what its      *)
(* name says -- a partial derivative of that formula, taken by D.  Nothing     *)
(* about a greek is written down twice.                                        *)
EXTENDS Expr, TLC, Json
s == X("s")   \* spot, or futures price
k == X("k")
t == X("t")
r == X("r")
v == X("v")
q == X("q")   \* dividend yield
rf == X("rf") \* foreign rate
b == X("b")   \* cost of carry, given as such
y == X("y")   \* yield r - b

(* model -> <<rate, carry>> *)
Models == [ bs |-> <<r, r>>, merton |-> <<r, Sub(r, q)>>, black |-> <<r, Zero>>, asay |-> <<Zero, Zero>>,
            gk |-> <<r, Sub(r, rf)>>, gbsm |-> <<r, b>>, gyield |-> <<r, Sub(r, y)>> ]
Names == DOMAIN Models
Sides == {"call", "put"}

SqT == Sqrt(t)
d1(c) == Div(Add(Ln(Div(s, k)), Mul(Add(c, Div(Sq(v), Two)), t)), Mul(v, SqT))
d2(c) == Sub(d1(c), Mul(v, SqT))
Fwd(m) == LET rr == Models[m][1] c == Models[m][2] IN Mul(s, Exp(Mul(Sub(c, rr), t)))    \* discounted forward
Str(m) == Mul(k, Exp(Neg(Mul(Models[m][1], t))))                                       \* discounted strike
Price(m, side) ==
  LET c == Models[m][2] IN
  IF side = "call" THEN Sub(Mul(Fwd(m), Phi(d1(c))), Mul(Str(m), Phi(d2(c))))
  ELSE Sub(Mul(Str(m), Phi(Neg(d2(c)))), Mul(Fwd(m), Phi(Neg(d1(c)))))
Delta(m, z) == D(Price(m, z), s)
Gamma(m, z) == D(Delta(m, z), s)
Vega(m, z) == D(Price(m, z), v)
Greek(g, m, z) ==
  CASE g = "price" -> Price(m, z)
    [] g = "d1" -> d1(Models[m][2])
    [] g = "d2" -> d2(Models[m][2])
    [] g = "delta" -> Delta(m, z)
    [] g = "gamma" -> Gamma(m, z)
    [] g = "theta" -> Neg(D(Price(m, z), t))             \* per unit of calendar time
    [] g = "vega" -> Vega(m, z)
    [] g = "rho" -> D(Price(m, z), r)
    [] g = "vanna" -> D(Delta(m, z), v)
    [] g = "charm" -> D(Delta(m, z), t)                  \* in time to expiry
    [] g = "lambda" -> Div(Mul(Delta(m, z), s), Price(m, z))
    [] g = "zomma" -> D(Gamma(m, z), v)
    [] g = "speed" -> D(Gamma(m, z), s)
    [] g = "color" -> Neg(D(Gamma(m, z), t))             \* per unit of calendar time
    [] g = "vomma" -> D(Vega(m, z), v)
    [] g = "ultima" -> D(D(Vega(m, z), v), v)
    (* only on the structure BlackScholesMerton *)
    [] g = "vega_bleed" -> Neg(D(Vega(m, z), t))
    [] g = "gamma_percent" -> Div(Mul(Gamma(m, z), s), N(100))
    [] g = "zomma_percent" -> Div(Mul(D(Gamma(m, z), v), s), N(100))
    [] g = "zeta" -> Phi(IF z = "call" THEN d2(Models[m][2]) ELSE Neg(d2(Models[m][2])))
    [] g = "strike_delta" -> D(Price(m, z), k)
    [] g = "strike_gamma" -> D(D(Price(m, z), k), k)
    [] g = "phi" -> D(Price(m, z), y)
Common == {"price", "delta", "gamma", "theta", "vega", "rho", "vanna", "charm", "lambda", "zomma", "speed", "color", "vomma", "ultima"}
Extra == {"vega_bleed", "gamma_percent", "zomma_percent", "zeta", "strike_delta", "strike_gamma"}
(* the sensitivities to the rate and the yield hold the other one fixed *)
Todo(m) == CASE m = "gbsm" -> (Common \ {"rho"}) \cup Extra
             [] m = "gyield" -> {"rho", "phi"}
             [] OTHER -> Common \cup {"d1", "d2"}

(* Bachelier's normal model: the discounted price, and its greeks *)
f == X("f")
BD == Div(Sub(f, k), Mul(v, SqT))
BPrice(z) == LET e == IF z = "call" THEN BD ELSE Neg(BD) m == IF z = "call" THEN Sub(f, k) ELSE Sub(k, f) IN
             Mul(Exp(Neg(Mul(r, t))), Add(Mul(m, Phi(e)), Mul3(v, SqT, phi(BD))))
Bach == [ price |-> [z \in Sides |-> BPrice(z)], delta |-> [z \in Sides |-> D(BPrice(z), f)], gamma |-> [z \in Sides |-> D(D(BPrice(z), f), f)],
          vega |-> [z \in Sides |-> D(BPrice(z), v)], theta |-> [z \in Sides |-> Neg(D(BPrice(z), t))] ]

VARIABLE cur
Init == cur = ""
Next == cur = "" /\ cur' \in Names \cup {"bachelier"}
Spec == Init /\ [][Next]_cur
Emit ==
  CASE cur = "" -> TRUE
    [] cur = "bachelier" -> \A g \in DOMAIN Bach : \A z \in Sides : PrintT(ToJson([m |-> cur, g |-> g, side |-> z, e |-> Bach[g][z]]))
    [] OTHER -> \A g \in Todo(cur) : \A z \in Sides : PrintT(ToJson([m |-> cur, g |-> g, side |-> z, e |-> Greek(g, cur, z), fwd |-> Fwd(cur), str |-> Str(cur)]))
=============================================================================
