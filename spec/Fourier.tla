------------------------------- MODULE Fourier -------------------------------
(* The discrete Fourier transform of length N = 2^k over the cyclotomic      *)
(* integers Z[w], w = exp(2 pi i / M), M = max(N, 4): an element is the      *)
(* sequence of its M/2 integer coefficients (w^(M/2) = -1), so i = w^(M/4)   *)
(* and everything is exact.                                                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Vals, Sim
VARIABLES x, done
M == IF N < 4 THEN 4 ELSE N
H == M \div 2
Zero == [j \in 1 .. H |-> 0]
Add(a, b) == [j \in 1 .. H |-> a[j] + b[j]]
Sub(a, b) == [j \in 1 .. H |-> a[j] - b[j]]
(* multiplication by w^e *)
Rot(a, e) == [j \in 1 .. H |-> LET s == (j - 1 - e) % M IN IF s < H THEN a[s + 1] ELSE -a[s - H + 1]]
Conj(a) == [j \in 1 .. H |-> IF j = 1 THEN a[1] ELSE -a[H - j + 2]]
RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, j) == IF j > H THEN Zero ELSE Add([i \in 1 .. H |-> b[j] * Rot(a, j - 1)[i]], MulFrom(a, b, j + 1))
Mul(a, b) == MulFrom(a, b, 1)
Gauss(v) == [j \in 1 .. H |-> IF j = 1 THEN v[1] ELSE IF j = M \div 4 + 1 THEN v[2] ELSE 0]
SumTo(f, n) == LET RECURSIVE S(_)
                   S(m) == IF m = 0 THEN Zero ELSE Add(S(m - 1), f[m]) IN S(n)
(* X_k = sum over m of x_m exp(-2 pi i m k / N) *)
Dft(v, n, dir) == [k \in 1 .. n |-> SumTo([m \in 1 .. n |-> Rot(v[m], dir * (M \div n) * ((m - 1) * (k - 1)) % M)], n)]
(* the radix-2 recursion *)
RECURSIVE Fft(_)
Fft(v) == LET n == Len(v) IN
  IF n = 1 THEN v
  ELSE LET e == Fft([j \in 1 .. n \div 2 |-> v[2 * j - 1]]) o == Fft([j \in 1 .. n \div 2 |-> v[2 * j]])
           t == [k \in 1 .. n \div 2 |-> Rot(o[k], -(M \div n) * (k - 1) % M)] IN
       [k \in 1 .. n |-> IF k <= n \div 2 THEN Add(e[k], t[k]) ELSE Sub(e[k - n \div 2], t[k - n \div 2])]
Lift(v) == [m \in 1 .. N |-> Gauss(v[m])]
RECURSIVE RandSeq(_)
RandSeq(n) == IF n = 0 THEN <<>> ELSE <<RandomElement(Vals)>> \o RandSeq(n - 1)
Init == x = <<>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\ (IF Sim THEN x' = TLCEval(RandSeq(N)) ELSE x' \in [1 .. N -> Vals])
Spec == Init /\ [][Next]_<<x, done>>
X == Dft(Lift(x), N, -1)
Radix2 == done => Fft(Lift(x)) = X
Inverse == done => Dft(X, N, 1) = [m \in 1 .. N |-> [j \in 1 .. H |-> N * Gauss(x[m])[j]]]
Energy(v) == SumTo([m \in 1 .. N |-> Mul(v[m], Conj(v[m]))], N)
Parseval == done => Energy(X) = [j \in 1 .. H |-> N * Energy(Lift(x))[j]]
Emit == ~done \/ PrintT(ToJson([x |-> x, X |-> X]))
=============================================================================
