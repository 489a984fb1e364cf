----------------------------- MODULE FiniteDiff -----------------------------
(* Finite differences for the Black-Scholes equation in x = ln S and time to *)
(* maturity, written once over an arbitrary algebra: over the rationals the  *)
(* model checker explores it (FdRat), over formulas it is handed to the      *)
(* conformance driver (FdEmit).                                              *)
(* One step takes the undiscounted values v at the interior nodes 1..n-1 of  *)
(* a grid of n price steps to the values u one time step earlier, where      *)
(*   (I - w L) u = (I + (1 - w) L) v,   L v_i = P v_{i-1} - 2 X v_i + Q v_{i+1} *)
(* with w = 0, 1, 1/2 for the explicit, implicit and Crank-Nicolson methods  *)
(* and P = X - Y, Q = X + Y for the diffusion number X and the drift number  *)
(* Y.  The values at the two edges of the grid are those of the step's end.  *)
(* An American option is worth at least its (compounded) payoff after every  *)
(* step.                                                                     *)
EXTENDS Integers, Sequences
CONSTANTS Plus(_, _), Minus(_, _), Times(_, _), Most(_, _), Halve(_), Whole(_)

Methods == {"explicit", "implicit", "crank_nicolson"}
None == Whole(0)
NewPart(m, a) == CASE m = "explicit" -> None [] m = "implicit" -> a [] OTHER -> Halve(a)
OldPart(m, a) == CASE m = "explicit" -> a [] m = "implicit" -> None [] OTHER -> Halve(a)
Twice(a) == Plus(a, a)
Low(X, Y) == Minus(X, Y)
High(X, Y) == Plus(X, Y)

(* the tridiagonal system of one step: coefficients of u_{i-1}, u_i, u_{i+1} and right-hand sides *)
Below(m, X, Y) == Minus(None, NewPart(m, Low(X, Y)))
Centre(m, X) == Plus(Whole(1), NewPart(m, Twice(X)))
Above(m, X, Y) == Minus(None, NewPart(m, High(X, Y)))
Pad(v, lo, hi) == <<lo>> \o v \o <<hi>>            \* the interior nodes between the edges: node i is element i + 1
RHS(m, X, Y, v, lo, hi, i) ==
  LET n == Len(v) + 1
      p == Pad(v, lo, hi)
      old == Plus(Times(p[i + 1], Minus(Whole(1), OldPart(m, Twice(X)))),
                  Plus(Times(OldPart(m, Low(X, Y)), p[i]), Times(OldPart(m, High(X, Y)), p[i + 2])))
      edge == Plus(IF i = 1 THEN Times(NewPart(m, Low(X, Y)), lo) ELSE None,
                   IF i = n - 1 THEN Times(NewPart(m, High(X, Y)), hi) ELSE None)
  IN Plus(old, edge)
System(m, X, Y, v, lo, hi) == [i \in 1 .. Len(v) |-> RHS(m, X, Y, v, lo, hi, i)]

Payoff(z, s, k) == Most(IF z = "call" THEN Minus(s, k) ELSE Minus(k, s), None)
(* the value at the edge where the option is deep in the money; the other edge is worth nothing.
   g is the growth of money since the start of the step count: undiscounted values grow with it *)
EdgeLow(z, s0, k, g) == IF z = "put" THEN Minus(k, Times(s0, g)) ELSE None
EdgeHigh(z, sn, k, g) == IF z = "call" THEN Minus(Times(sn, g), k) ELSE None
Exercise(style, u, g, z, s, k) == IF style = "american" THEN Most(u, Times(g, Payoff(z, s, k))) ELSE u
(* the value at the middle of the grid: an average of the two middle nodes if there is no middle one *)
Middle(n, v) == IF n % 2 = 0 THEN v[n \div 2] ELSE Halve(Plus(v[(n - 1) \div 2], v[(n + 1) \div 2]))
=============================================================================
