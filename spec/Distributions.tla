--------------------------- MODULE Distributions ----------------------------
(* Distributions as formulas.                                                  *)
(*  Discrete: the mass at k; every other quantity is a sum over the masses,    *)
(*  which the driver carries out ("sum" of a formula over the support).        *)
(*  Continuous: the distribution function in x and the moment-generating       *)
(*  function in t.  The density is the derivative of the former; mean,         *)
(*  variance, skewness and kurtosis are cumulants, derivatives of the          *)
(*  logarithm of the latter -- all taken here, symbolically.                   *)
EXTENDS Expr, TLC, Json
VARIABLE done
k == X("k")
x == X("x")
t == X("t")
n == X("n")
p == X("p")
lam == X("lam")
mu == X("mu")
v == X("v")
al == X("al")
be == X("be")
a == X("a")
b == X("b")
LG(e) == Fn("lgamma", Add(e, One))
Half == Q(1, 2)
Discrete == [
  bernoulli |-> [pmf |-> Add(Mul(k, p), Mul(Sub(One, k), Sub(One, p))), lo |-> Zero, hi |-> One],
  binomial  |-> [pmf |-> Mul3(Exp(Sub(Sub(LG(n), LG(k)), LG(Sub(n, k)))), Pow(p, k), Pow(Sub(One, p), Sub(n, k))), lo |-> Zero, hi |-> n],
  poisson   |-> [pmf |-> Exp(Sub(Sub(Mul(k, Ln(lam)), lam), LG(k))), lo |-> Zero, hi |-> Add(Add(lam, Mul(N(40), Sqrt(lam))), N(60))],
  uniform   |-> [pmf |-> Div(One, Add(Sub(b, a), One)), lo |-> a, hi |-> b] ]
(* what a quantity of a discrete distribution is: a sum of w(k) pmf(k) *)
Weights == [ mean |-> k, raw2 |-> Sq(k), mgf |-> Exp(Mul(t, k)), re |-> Fn("cos", Mul(t, k)), im |-> Fn("sin", Mul(t, k)),
             c2 |-> Sq(Sub(k, X("mean"))), c3 |-> Mul(Sub(k, X("mean")), Sq(Sub(k, X("mean")))), c4 |-> Sq(Sq(Sub(k, X("mean")))) ]
Of == [ variance |-> X("c2"), skewness |-> Div(X("c3"), Pow(X("c2"), Q(3, 2))), kurtosis |-> Sub(Div(X("c4"), Sq(X("c2"))), N(3)) ]

Continuous == [
  gaussian |-> [cdf |-> Phi(Div(Sub(x, mu), Sqrt(v))), mgf |-> Exp(Add(Mul(mu, t), Div(Mul3(v, t, t), Two)))],
  exponential |-> [cdf |-> Sub(One, Exp(Neg(Mul(lam, x)))), mgf |-> Div(lam, Sub(lam, t))],
  gamma |-> [cdf |-> <<"gammaP", al, Mul(be, x)>>, mgf |-> Pow(Sub(One, Div(t, be)), Neg(al))],
  chisquared |-> [cdf |-> <<"gammaP", Div(n, Two), Div(x, Two)>>, mgf |-> Pow(Sub(One, Mul(Two, t)), Neg(Div(n, Two)))],
  uniform |-> [cdf |-> Div(Sub(x, a), Sub(b, a)), mgf |-> Div(Sub(Exp(Mul(t, b)), Exp(Mul(t, a))), Mul(t, Sub(b, a)))] ]
GammaDensity(s, y) == Exp(Sub(Sub(Mul(Sub(s, One), Ln(y)), y), Fn("lgamma", s)))
(* D does not know gammaP: its derivative in the second argument is the density of a unit-rate gamma variable *)
Density(d) == LET F == Continuous[d].cdf IN
  IF F[1] = "gammaP" THEN Mul(GammaDensity(F[2], F[3]), D(F[3], x)) ELSE D(F, x)
K1(d) == D(Ln(Continuous[d].mgf), t)
K2(d) == D(K1(d), t)
K3(d) == D(K2(d), t)
K4(d) == D(K3(d), t)
RawU(j) == Div(Sub(Pow(b, N(j + 1)), Pow(a, N(j + 1))), Mul(N(j + 1), Sub(b, a)))
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ \A d \in DOMAIN Discrete : PrintT(ToJson([kind |-> "discrete", d |-> d, pmf |-> Discrete[d].pmf, lo |-> Discrete[d].lo, hi |-> Discrete[d].hi,
                                                     w |-> Weights, of |-> Of]))
        /\ \A d \in DOMAIN Continuous : PrintT(ToJson(
             [kind |-> "continuous", d |-> d, cdf |-> Continuous[d].cdf, pdf |-> Density(d), mgf |-> Continuous[d].mgf,
              entropy |-> Neg(Mul(Density(d), Ln(Density(d)))),      \* the integrand
              cum |-> IF d = "uniform" THEN <<RawU(1), Div(Sq(Sub(b, a)), N(12)), Zero, Neg(Div(Mul4(Sub(b, a), Sub(b, a), Sub(b, a), Sub(b, a)), N(120)))>>
                      ELSE <<K1(d), K2(d), K3(d), K4(d)>>]))
Spec == Init /\ [][Next]_done
=============================================================================
