-------------------------------- MODULE Rat ---------------------------------
(* Exact rationals <<numerator, denominator>> with a positive denominator in *)
(* lowest terms, for specifications whose amounts are exact.                 *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(n, d) == LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1 IN <<s * (n \div g), s * (d \div g)>>
R0 == <<0, 1>>
RAdd(a, b) == LET g == Gcd(a[2], b[2]) IN Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET g == Gcd(Abs(a[1]), b[2]) h == Gcd(Abs(b[1]), a[2]) IN
              <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
RDiv(a, b) == RMul(a, IF b[1] < 0 THEN <<-b[2], -b[1]>> ELSE <<b[2], b[1]>>)
RLess(a, b) == a[1] * b[2] < b[1] * a[2]
Small(a, m) == Abs(a[1]) <= m /\ a[2] <= m      \* keeps the arithmetic inside TLC's 32-bit integers
RECURSIVE RSumF(_, _)
RSumF(S, f) == IF S = {} THEN R0 ELSE LET x == CHOOSE x \in S : TRUE IN RAdd(f[x], RSumF(S \ {x}, f))
RSumSet(S, f(_)) == RSumF(S, [x \in S |-> f(x)])
RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN R0 ELSE RAdd(s[1], RSumSeq([i \in 1 .. Len(s) - 1 |-> s[i + 1]]))
=============================================================================
