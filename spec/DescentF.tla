------------------------------ MODULE DescentF ------------------------------
(* Objectives beyond the quadratic, as polynomials and as formulas, with the   *)
(* gradients the symbolic derivative gives: the update rule on real numbers.   *)
EXTENDS Expr, TLC, Json
VARIABLE done
V(i) == X("x" \o ToString(i))
(* powers with one or two entries other than zero *)
E1(n, i, k) == [j \in 1 .. n |-> IF j = i THEN k ELSE 0]
E2(n, i, l) == [j \in 1 .. n |-> IF j = i \/ j = l THEN 1 ELSE 0]
(* a monomial: <<coefficient, powers>> *)
Polys == [
  rosenbrock |-> << <<1, <<0, 0>>>>, <<-2, <<1, 0>>>>, <<1, <<2, 0>>>>, <<5, <<0, 2>>>>, <<-10, <<2, 1>>>>, <<5, <<4, 0>>>> >>,
  booth |-> << <<5, <<2, 0>>>>, <<8, <<1, 1>>>>, <<5, <<0, 2>>>>, <<-34, <<1, 0>>>>, <<-38, <<0, 1>>>>, <<74, <<0, 0>>>> >>,
  quartic |-> << <<1, <<4>>>>, <<-3, <<2>>>>, <<1, <<1>>>>, <<7, <<0>>>> >>,
  saddle |-> << <<1, <<2, 0, 0>>>>, <<-1, <<0, 2, 0>>>>, <<2, <<0, 0, 2>>>>, <<1, <<1, 1, 1>>>>, <<-4, <<0, 0, 0>>>> >>,
  (* bowls: the iteration reaches its tolerance *)
  bowl1 |-> << <<1, <<2>>>>, <<3, <<0>>>> >>,
  bowl1b |-> << <<2, <<2>>>>, <<-8, <<1>>>>, <<1, <<0>>>> >>,
  bowl2 |-> << <<1, <<2, 0>>>>, <<1, <<1, 1>>>>, <<1, <<0, 2>>>> >>,
  bowl2b |-> << <<1, <<2, 0>>>>, <<1, <<0, 2>>>>, <<-6, <<1, 0>>>>, <<2, <<0, 1>>>> >>,
  bowl12 |-> [i \in 1 .. 12 |-> <<1 + (i % 2), E1(12, i, 2)>>] \o [i \in 1 .. 11 |-> <<IF i % 3 = 0 THEN 1 ELSE -1, E2(12, i, i + 1)>>],
  bowl40 |-> [i \in 1 .. 40 |-> <<1, E1(40, i, 2)>>] \o [i \in 1 .. 40 |-> <<(i % 5) - 2, E1(40, i, 1)>>] ]
Bowls == {"bowl1", "bowl1b", "bowl2", "bowl2b", "bowl12", "bowl40"}
RECURSIVE PowV(_, _)
PowV(v, k) == IF k = 0 THEN One ELSE IF k = 1 THEN v ELSE Mul(v, PowV(v, k - 1))
Term(m) == Mul(N(m[1]), LET S == SelectSeq([i \in 1 .. Len(m[2]) |-> i], LAMBDA i : m[2][i] > 0) IN ProdSeq([i \in 1 .. Len(S) |-> PowV(V(S[i]), m[2][S[i]])]))
Form(p) == SumSeq([j \in 1 .. Len(p) |-> Term(p[j])])
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ \A nm \in DOMAIN Polys :
  LET p == Polys[nm] d == Len(p[1][2]) f == Form(p) IN
  PrintT(ToJson([name |-> nm, bowl |-> nm \in Bowls, poly |-> p, dim |-> d, f |-> f, g |-> [i \in 1 .. d |-> D(f, V(i))]]))
Spec == Init /\ [][Next]_done
=============================================================================
