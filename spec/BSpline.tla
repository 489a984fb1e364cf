------------------------------ MODULE BSpline -------------------------------
(* B-spline curves by the Cox-de Boor recursion over rational knots.         *)
(* Knot spans are half-open, except that the end of the domain belongs to    *)
(* the last non-empty span, so the basis sums to one on the whole domain.    *)
EXTENDS Rat, TLC, Json, FiniteSets
CONSTANTS KnotVals, CVals, Degrees, NCps, Sim, Adds
VARIABLES knots, cps, deg, hist
vars == <<knots, cps, deg, hist>>
Min0 == CHOOSE x \in KnotVals : \A y \in KnotVals : x <= y
Max0 == CHOOSE x \in KnotVals : \A y \in KnotVals : x >= y
Asc(s) == \A i \in 1 .. Len(s) - 1 : s[i] <= s[i + 1]
Half(K, i, x) == K[i] * 2 <= x /\ (x < K[i + 1] * 2 \/ (x = K[i + 1] * 2 /\ K[i] < K[i + 1] /\ K[i + 1] = K[Len(K)]))
RECURSIVE N(_, _, _, _)              \* positions x are in half units
N(K, i, p, x) ==
  IF p = 0 THEN IF Half(K, i, x) THEN <<1, 1>> ELSE R0
  ELSE RAdd(IF K[i + p] = K[i] THEN R0 ELSE RMul(Norm(x - 2 * K[i], 2 * (K[i + p] - K[i])), N(K, i, p - 1, x)),
            IF K[i + p + 1] = K[i + 1] THEN R0 ELSE RMul(Norm(2 * K[i + p + 1] - x, 2 * (K[i + p + 1] - K[i + 1])), N(K, i + 1, p - 1, x)))
Lo(K, p) == 2 * K[p + 1]
Hi(K, p) == 2 * K[Len(K) - p]
Inside(K, p, x) == Lo(K, p) <= x /\ x <= Hi(K, p)
Value(K, C, p, x) == RSumSeq([i \in DOMAIN C |-> RMul(N(K, i, p, x), <<C[i], 1>>)])
Basis(K, n, p, x) == RSumSeq([i \in 1 .. n |-> N(K, i, p, x)])
Asks == (2 * Min0 - 1) .. (2 * Max0 + 1)
Answer(K, C, p, x) == IF Inside(K, p, x) THEN <<Value(K, C, p, x)>> ELSE <<>>
Log(e, K, C, p) == hist' = Append(hist, [e |-> e, lo |-> K[1], hi |-> K[Len(K)], q |-> [i \in 1 .. Cardinality(Asks) |-> 2 * Min0 - 2 + i],
                           a |-> [i \in 1 .. Cardinality(Asks) |-> Answer(K, C, p, 2 * Min0 - 2 + i)]])
Sorted(s) == CHOOSE t \in {[i \in 1 .. Len(s) |-> s[p[i]]] : p \in {f \in [1 .. Len(s) -> 1 .. Len(s)] : \A i, j \in 1 .. Len(s) : f[i] = f[j] => i = j}} : Asc(t)
RECURSIVE Ins(_, _)
Ins(s, x) == IF s = <<>> THEN <<x>> ELSE IF x <= s[1] THEN <<x>> \o s ELSE <<s[1]>> \o Ins(SubSeq(s, 2, Len(s)), x)
RECURSIVE SortSeq0(_)
SortSeq0(s) == IF s = <<>> THEN <<>> ELSE Ins(SortSeq0(SubSeq(s, 2, Len(s))), s[1])
(* knots are given in any order; their number is control points + degree + 1, otherwise the construction is refused *)
Make(s, C, p) ==
  IF Len(s) # Len(C) + p + 1
  THEN UNCHANGED <<knots, cps, deg>> /\ hist' = Append(hist, [e |-> <<"bad", s, C, p>>, n |-> Len(C) + p + 1])
  ELSE LET K == SortSeq0(s) IN knots' = K /\ cps' = C /\ deg' = p /\ Log(<<"new", s, C, p>>, K, C, p)
Add(x, c) == LET K == Ins(knots, x) C == Append(cps, c) IN
             knots' = K /\ cps' = C /\ UNCHANGED deg /\ Log(<<"add", x, c>>, K, C, deg)
RECURSIVE RandKnots(_)
RandKnots(n) == IF n = 0 THEN <<>> ELSE <<RandomElement(KnotVals)>> \o RandKnots(n - 1)
RECURSIVE RandC(_)
RandC(n) == IF n = 0 THEN <<>> ELSE <<RandomElement(CVals)>> \o RandC(n - 1)
(* clamped knots: the ends repeated degree + 1 times *)
RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)
RandNext ==
  IF hist = <<>> THEN
     \E p \in {RandomElement(Degrees)} : \E n \in {p + 1 + RandomElement(0 .. NCps)} : \E C \in {TLCEval(RandC(n))} :
     \E s \in {TLCEval(CASE RandomElement(1 .. 10) <= 4 -> Rep(Min0, p + 1) \o RandKnots(n - p - 1) \o Rep(Max0, p + 1)
                          [] OTHER -> RandKnots(IF RandomElement(1 .. 12) = 1 THEN n + p + RandomElement({0, 2}) ELSE n + p + 1))} : Make(s, C, p)
  ELSE hist[Len(hist)].e[1] # "bad" /\ \E x \in {RandomElement(KnotVals)}, c \in {RandomElement(CVals)} : Add(x, c)
AllNext ==
  hist = <<>> /\ \E p \in Degrees : \E n \in (p + 1) .. NCps : \E s \in {t \in [1 .. n + p + 1 -> KnotVals] : Asc(t)} :
     Make(s, [i \in 1 .. n |-> IF i % 3 = 0 THEN -2 ELSE i * i], p)
Init == knots = <<>> /\ cps = <<>> /\ deg = 0 /\ hist = <<>>
Next == Len(hist) < 1 + Adds /\ IF Sim THEN RandNext ELSE AllNext
Spec == Init /\ [][Next]_vars
(* partition of unity on the domain (which has positive length), and the convex hull property follows *)
Unity == hist = <<>> \/ knots = <<>> \/ Lo(knots, deg) = Hi(knots, deg) \/
         \A x \in Lo(knots, deg) .. Hi(knots, deg) : Basis(knots, Len(cps), deg, x) = <<1, 1>>
Emit == hist = <<>> \/ (Len(hist) < 1 + Adds /\ hist[Len(hist)].e[1] # "bad") \/ PrintT(ToJson(hist))
=============================================================================
