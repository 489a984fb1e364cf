-------------------------------- MODULE Expr --------------------------------
(* Formulas as data, and their mathematical derivative.  A formula is a      *)
(* tuple whose first element names the operation; ToJson hands it to the     *)
(* conformance driver, which only evaluates it at a point.                   *)
EXTENDS Integers, Sequences, FiniteSets

N(k) == <<"n", k>>                     \* integer
Q(a, b) == <<"q", a, b>>               \* fraction
X(name) == <<"x", name>>               \* variable
Zero == N(0)
One == N(1)
Two == N(2)

Neg(a) == IF a = Zero THEN Zero ELSE <<"neg", a>>
Add(a, b) == IF a = Zero THEN b ELSE IF b = Zero THEN a ELSE <<"add", a, b>>
Sub(a, b) == IF b = Zero THEN a ELSE IF a = Zero THEN Neg(b) ELSE <<"sub", a, b>>
Mul(a, b) == IF a = Zero \/ b = Zero THEN Zero ELSE IF a = One THEN b ELSE IF b = One THEN a ELSE <<"mul", a, b>>
Div(a, b) == IF a = Zero THEN Zero ELSE IF b = One THEN a ELSE <<"div", a, b>>
Pow(a, b) == IF b = One THEN a ELSE <<"pow", a, b>>
Fn(f, a) == <<f, a>>
Exp(a) == <<"exp", a>>
Ln(a) == <<"ln", a>>
Sqrt(a) == <<"sqrt", a>>
Sq(a) == <<"mul", a, a>>
Phi(a) == <<"Phi", a>>                 \* standard normal distribution function
phi(a) == <<"phi", a>>                 \* its density
Min2(a, b) == <<"min", a, b>>
Max2(a, b) == <<"max", a, b>>
Add3(a, b, c) == Add(Add(a, b), c)
Mul3(a, b, c) == Mul(Mul(a, b), c)
Mul4(a, b, c, d) == Mul(Mul(a, b), Mul(c, d))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN Zero ELSE Add(Head(s), SumSeq(Tail(s)))
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN One ELSE Mul(Head(s), ProdSeq(Tail(s)))

Leaf == {"n", "q", "x", "r", "d"}
RECURSIVE Free(_, _)                   \* does formula e mention the leaf v?
Free(e, v) == IF e[1] \in Leaf THEN e = v ELSE \E i \in 2 .. Len(e) : Free(e[i], v)

RECURSIVE D(_, _)
D(e, v) ==
  IF e[1] \in Leaf THEN (IF e = v THEN One ELSE Zero)
  ELSE IF ~Free(e, v) THEN Zero
  ELSE LET o == e[1]  a == e[2]  da == D(a, v) IN
  CASE o = "neg" -> Neg(da)
    [] o = "add" -> Add(da, D(e[3], v))
    [] o = "sub" -> Sub(da, D(e[3], v))
    [] o = "mul" -> Add(Mul(da, e[3]), Mul(a, D(e[3], v)))
    [] o = "div" -> Div(Sub(Mul(da, e[3]), Mul(a, D(e[3], v))), Sq(e[3]))
    [] o = "pow" -> IF ~Free(e[3], v)
                    THEN Mul3(e[3], <<"pow", a, Sub(e[3], One)>>, da)
                    ELSE Mul(e, Add(Mul(D(e[3], v), Ln(a)), Div(Mul(e[3], da), a)))
    [] o = "exp" -> Mul(e, da)
    [] o = "ln" -> Div(da, a)
    [] o = "sqrt" -> Div(da, Mul(Two, e))
    [] o = "cbrt" -> Div(da, Mul3(N(3), e, e))
    [] o = "abs" -> Mul(<<"sign", a>>, da)
    [] o = "sin" -> Mul(<<"cos", a>>, da)
    [] o = "cos" -> Neg(Mul(<<"sin", a>>, da))
    [] o = "tan" -> Div(da, Sq(<<"cos", a>>))
    [] o = "asin" -> Div(da, Sqrt(Sub(One, Sq(a))))
    [] o = "acos" -> Neg(Div(da, Sqrt(Sub(One, Sq(a)))))
    [] o = "atan" -> Div(da, Add(One, Sq(a)))
    [] o = "sinh" -> Mul(<<"cosh", a>>, da)
    [] o = "cosh" -> Mul(<<"sinh", a>>, da)
    [] o = "tanh" -> Div(da, Sq(<<"cosh", a>>))
    [] o = "asinh" -> Div(da, Sqrt(Add(One, Sq(a))))
    [] o = "acosh" -> Div(da, Sqrt(Sub(Sq(a), One)))
    [] o = "atanh" -> Div(da, Sub(One, Sq(a)))
    [] o = "erfc" -> Neg(Mul(Div(Mul(Two, Exp(Neg(Sq(a)))), Sqrt(<<"pi">>)), da))
    [] o = "expm1" -> Mul(Exp(a), da)
    [] o = "log1p" -> Div(da, Add(One, a))
    [] o = "erf" -> Mul(Div(Mul(Two, Exp(Neg(Sq(a)))), Sqrt(<<"pi">>)), da)
    [] o = "Phi" -> Mul(<<"phi", a>>, da)
    [] o = "phi" -> Neg(Mul3(a, e, da))
    [] o = "min" -> <<"less", a, e[3], da, D(e[3], v)>>      \* a < b ? a' : b'   (a tie is outside the domain)
    [] o = "max" -> <<"less", e[3], a, da, D(e[3], v)>>
=============================================================================
