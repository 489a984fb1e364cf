------------------------------- MODULE FdRat --------------------------------
(* The finite-difference scheme over exact rationals: for every stable step  *)
(* (P, Q and the central weight not negative) European and American calls    *)
(* and puts are stepped side by side, with the forward contract S - K.       *)
EXTENDS Rat, TLC
CONSTANTS Grid, Strikes, Steps
(* asset prices at the nodes 0..n; the strikes lie inside the grid's edges, grown to the last step *)
Node == CASE Grid = 3 -> <<1, 4, 8, 16>> [] Grid = 4 -> <<1, 4, 8, 12, 20>>
ROf(x) == <<x, 1>>
RHalf(a) == RDiv(a, <<2, 1>>)
RMost(a, b) == IF RLess(a, b) THEN b ELSE a
F == INSTANCE FiniteDiff WITH Plus <- RAdd, Minus <- RSub, Times <- RMul, Most <- RMost, Halve <- RHalf, Whole <- ROf
n == Len(Node) - 1
S(i) == ROf(Node[i + 1])
VARIABLES m, X, Y, g, k, step, ec, ep, ac, ap, fw
vars == <<m, X, Y, g, k, step, ec, ep, ac, ap, fw>>
RLeq(a, b) == ~RLess(b, a)

(* Gaussian elimination of a tridiagonal system with constant coefficients a, b, c *)
RECURSIVE Elim(_, _, _, _, _)
Elim(a, b, c, d, i) ==              \* <<c'_i, d'_i>>
  IF i = 1 THEN <<RDiv(c, b), RDiv(d[1], b)>>
  ELSE LET e == Elim(a, b, c, d, i - 1)
           w == RSub(b, RMul(a, e[1]))
       IN <<RDiv(c, w), RDiv(RSub(d[i], RMul(a, e[2])), w)>>
RECURSIVE Back(_, _, _, _, _)
Back(a, b, c, d, i) ==              \* the values i..Len(d)
  LET e == Elim(a, b, c, d, i) IN
  IF i = Len(d) THEN <<e[2]>>
  ELSE LET u == Back(a, b, c, d, i + 1) IN <<RSub(e[2], RMul(e[1], u[1]))>> \o u
Solve(d) == Back(F!Below(m, X, Y), F!Centre(m, X), F!Above(m, X, Y), d, 1)

RECURSIVE PowG(_)
PowG(j) == IF j = 0 THEN ROf(1) ELSE RMul(g, PowG(j - 1))
Ex(style, z, u, gg) == [i \in 1 .. n - 1 |-> F!Exercise(style, u[i], gg, z, S(i), k)]
One(style, z, v) ==
  LET gg == PowG(step + 1) IN
  Ex(style, z, Solve(F!System(m, X, Y, v, F!EdgeLow(z, S(0), k, gg), F!EdgeHigh(z, S(n), k, gg))), gg)
Init0(z) == [i \in 1 .. n - 1 |-> F!Payoff(z, S(i), k)]

FInit == /\ m \in F!Methods /\ X \in {<<1, 4>>, <<1, 2>>} /\ Y \in {<<0, 1>>, <<1, 4>>, <<-1, 4>>}
         /\ g \in {<<1, 1>>, <<2, 1>>} /\ k \in {ROf(j) : j \in Strikes}
         /\ step = 0
         /\ ec = Init0("call") /\ ep = Init0("put") /\ ac = Init0("call") /\ ap = Init0("put")
         /\ fw = [i \in 1 .. n - 1 |-> RSub(S(i), k)]
FNext == /\ step < Steps /\ step' = step + 1
         /\ ec' = One("european", "call", ec) /\ ep' = One("european", "put", ep)
         /\ ac' = One("american", "call", ac) /\ ap' = One("american", "put", ap)
         /\ LET gg == PowG(step + 1) IN
            fw' = Solve(F!System(m, X, Y, fw, RSub(RMul(S(0), gg), k), RSub(RMul(S(n), gg), k)))
         /\ UNCHANGED <<m, X, Y, g, k>>
FSpec == FInit /\ [][FNext]_vars

(* elimination solves the system: checked on the European put's next step *)
Residual(d, i) ==
  LET u == F!Pad(Solve(d), ROf(0), ROf(0)) IN
  RSub(RAdd(RMul(F!Below(m, X, Y), u[i]), RAdd(RMul(F!Centre(m, X), u[i + 1]), RMul(F!Above(m, X, Y), u[i + 2]))), d[i])
Solved == step < Steps => LET d == F!System(m, X, Y, ep, F!EdgeLow("put", S(0), k, PowG(step + 1)), ROf(0)) IN
          \A i \in 1 .. n - 1 : Residual(d, i) = R0
(* the maximum principle: no stable step leaves the range of its data *)
TopCall == RMost(RSub(RMul(S(n), PowG(step)), k), R0)
TopPut == k
InRange == \A i \in 1 .. n - 1 : /\ RLeq(R0, ec[i]) /\ RLeq(ec[i], TopCall)
                                 /\ RLeq(R0, ep[i]) /\ RLeq(ep[i], TopPut)
American == \A i \in 1 .. n - 1 : /\ RLeq(ec[i], ac[i]) /\ RLeq(ep[i], ap[i])
                                  /\ RLeq(RMul(PowG(step), F!Payoff("call", S(i), k)), ac[i])
                                  /\ RLeq(RMul(PowG(step), F!Payoff("put", S(i), k)), ap[i])
(* edges on either side of the strike: the call less the put is the forward, stepped on its own *)
Parity ==          \A i \in 1 .. n - 1 : RSub(ec[i], ep[i]) = fw[i]
(* without interest or drift the values keep the payoffs' order *)
Monotone == Y = R0 /\ g = <<1, 1>> => \A i \in 1 .. n - 2 : RLeq(ec[i], ec[i + 1]) /\ RLeq(ep[i + 1], ep[i])
=============================================================================
