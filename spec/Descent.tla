------------------------------ MODULE Descent -------------------------------
(* Gradient descent, exactly.  The objective is a polynomial of degree at     *)
(* most two in one or two variables with integer coefficients,                *)
(*   f(x, y) = a x^2 + b x y + c y^2 + d x + e y + g,                         *)
(* the learning rate a fraction, every iterate an exact rational.  One step    *)
(* of the machine is one pass of the loop: look at the gradient, stop if its   *)
(* norm is below the tolerance, otherwise move against it.                     *)
EXTENDS Rat, TLC, Json
CONSTANTS Coefs,     \* set of <<a, b, c, d, e, g>>
          Starts, Rates, Tols, Maxes, Dims
VARIABLES cfg, x, n, stopped, path
vars == <<cfg, x, n, stopped, path>>
I(k) == <<k, 1>>
F(q, p) == LET u == p[1] v == p[2] IN
  RAdd(RAdd(RAdd(RMul(I(q[1]), RMul(u, u)), RMul(I(q[2]), RMul(u, v))), RMul(I(q[3]), RMul(v, v))),
       RAdd(RAdd(RMul(I(q[4]), u), RMul(I(q[5]), v)), I(q[6])))
Grad(q, p) == LET u == p[1] v == p[2] IN
  << RAdd(RAdd(RMul(I(2 * q[1]), u), RMul(I(q[2]), v)), I(q[4])),
     RAdd(RAdd(RMul(I(q[2]), u), RMul(I(2 * q[3]), v)), I(q[5])) >>
Norm2(g) == RAdd(RMul(g[1], g[1]), RMul(g[2], g[2]))
Move(p, g, lr) == << RSub(p[1], RMul(lr, g[1])), RSub(p[2], RMul(lr, g[2])) >>
(* tolerance <<0, 1>> stands for the default, too small to matter on these exact points: only a zero gradient is below it *)
Stationary(g, tol) == IF tol[1] = 0 THEN g = <<R0, R0>> ELSE RLess(Norm2(g), RMul(tol, tol))

Configs == {c \in [q : Coefs, s : Starts, lr : Rates, tol : Tols, max : Maxes, dim : Dims] :
              c.dim = 1 => c.q[2] = 0 /\ c.q[3] = 0 /\ c.q[5] = 0 /\ c.s[2] = 0}
Init == /\ cfg \in Configs /\ x = <<I(cfg.s[1]), I(cfg.s[2])>> /\ n = 0 /\ stopped = FALSE /\ path = <<x>>
Pass == /\ ~stopped /\ n < cfg.max /\ n' = n + 1 /\ UNCHANGED cfg
        /\ LET g == Grad(cfg.q, x) IN
           IF Stationary(g, cfg.tol) THEN stopped' = TRUE /\ UNCHANGED <<x, path>>
           ELSE stopped' = FALSE /\ x' = Move(x, g, cfg.lr) /\ path' = Append(path, x')
Next == Pass
Spec == Init /\ [][Next]_vars
InRange == \A i \in 1 .. 2 : Small(x[i], 3000)
Done == stopped \/ n = cfg.max
Emit == (Done /\ InRange) => PrintT(ToJson([cfg |-> cfg, x |-> x, n |-> n, f |-> F(cfg.q, x), stopped |-> stopped]))

(* where the curvature times the rate stays below one in the bound L <= 2 (|a| + |b| + |c|), no step goes up *)
AbsSum(q) == 2 * (Abs(q[1]) + Abs(q[2]) + Abs(q[3]))
Tiny(p) == Small(p[1], 40) /\ Small(p[2], 40)       \* comparing values multiplies across
Descends == (InRange /\ ~RLess(I(1), RMul(cfg.lr, I(AbsSum(cfg.q))))) =>
              \A i \in 1 .. Len(path) - 1 : Tiny(path[i]) /\ Tiny(path[i + 1]) => ~RLess(F(cfg.q, path[i]), F(cfg.q, path[i + 1]))
Counts == n <= cfg.max /\ Len(path) = (IF stopped THEN n ELSE n + 1)
StopsStationary == stopped => Stationary(Grad(cfg.q, x), cfg.tol)
=============================================================================
