------------------------------- MODULE FdEmit -------------------------------
(* One step of the finite-difference scheme as formulas, for every grid      *)
(* size, method, side and style: the driver repeats the step.                *)
(* Variables: s k r v T the contract, n and m (as numbers) the grid sizes,   *)
(* tau the time to maturity at the end of the step, o1, o2, ... the old      *)
(* values and u1, u2, ... the solution of the system.                        *)
EXTENDS Expr, TLC, Json
CONSTANTS Sizes
F == INSTANCE FiniteDiff WITH Plus <- Add, Minus <- Sub, Times <- Mul, Most <- Max2, Halve <- LAMBDA a : Mul(Q(1, 2), a), Whole <- N
s == X("s")  k == X("k")  r == X("r")  v == X("v")  T == X("T")  tau == X("tau")
dt == Div(T, X("m"))
(* five standard deviations of the log-price on either side of today's *)
Reach == Mul3(N(5), v, Sqrt(T))
dx(n) == Div(Mul(Two, Reach), N(n))
Node(n, i) == Mul(s, Exp(Mul(Q(2 * i - n, n), Reach)))
Diffusion(n) == Div(Mul(dt, Sq(v)), Mul(Two, Sq(dx(n))))
Drift(n) == Div(Mul(dt, Sub(r, Div(Sq(v), Two))), Mul(Two, dx(n)))
Growth == Exp(Mul(r, tau))
Old(n) == [i \in 1 .. n - 1 |-> X("o" \o ToString(i))]
Scheme(n, mt, z, st) ==
  LET x == X("X")  y == X("Y") IN
  [n |-> n, method |-> mt, side |-> z, style |-> st,
   X |-> Diffusion(n), Y |-> Drift(n),
   start |-> [i \in 1 .. n - 1 |-> F!Payoff(z, Node(n, i), k)],
   below |-> F!Below(mt, x, y), centre |-> F!Centre(mt, x), above |-> F!Above(mt, x, y),
   lo |-> F!EdgeLow(z, Node(n, 0), k, Growth), hi |-> F!EdgeHigh(z, Node(n, n), k, Growth),
   rhs |-> F!System(mt, x, y, Old(n), X("lo"), X("hi")),
   after |-> [i \in 1 .. n - 1 |-> F!Exercise(st, X("u" \o ToString(i)), Growth, z, Node(n, i), k)],
   price |-> Mul(Exp(Neg(Mul(r, T))), F!Middle(n, Old(n)))]
VARIABLES job
Jobs == {<<n, mt, z, st>> : n \in Sizes, mt \in F!Methods, z \in {"call", "put"}, st \in {"european", "american"}}
EInit == job \in Jobs
ESpec == EInit /\ [][UNCHANGED job]_job
(* what fine grids tend to, and bounds of every American option *)
d1 == Div(Add(Ln(Div(s, k)), Mul(Add(r, Div(Sq(v), Two)), T)), Mul(v, Sqrt(T)))
d2 == Sub(d1, Mul(v, Sqrt(T)))
BS(z) == IF z = "call" THEN Sub(Mul(s, Phi(d1)), Mul3(k, Exp(Neg(Mul(r, T))), Phi(d2)))
         ELSE Sub(Mul3(k, Exp(Neg(Mul(r, T))), Phi(Neg(d2))), Mul(s, Phi(Neg(d1))))
Gam == Div(Mul(Two, r), Sq(v))
Stop == Div(Mul(Gam, k), Add(One, Gam))              \* exercise level of the perpetual put
Perpetual(z) == IF z = "call" THEN s
                ELSE <<"if", s, Stop, Sub(k, s), Mul(Sub(k, Stop), Pow(Div(s, Stop), Neg(Gam)))>>
Limits == [z \in {"call", "put"} |-> [european |-> BS(z), intrinsic |-> F!Payoff(z, s, k), perpetual |-> Perpetual(z)]]
EmitLimits == job = (CHOOSE j \in Jobs : TRUE) => PrintT(ToJson([limits |-> Limits]))
Emit == PrintT(ToJson(Scheme(job[1], job[2], job[3], job[4])))
=============================================================================
