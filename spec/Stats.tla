-------------------------------- MODULE Stats --------------------------------
(* Sample statistics by definition, exactly.  A sample is a sequence of      *)
(* integers; D is the sequence of deviations n*x - sum(x), so that the       *)
(* central moments are sums of powers of D over powers of n.                 *)
EXTENDS Rat, TLC, Json, FiniteSets, SequencesExt
CONSTANTS Vals, MinLen, MaxLen, Kind, Ps, Exact      \* Exact: sums and products of powers fit in 32 bits
VARIABLES x, y, done
vars == <<x, y, done>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Dev(s) == LET t == Sum(s) IN [i \in DOMAIN s |-> Len(s) * s[i] - t]
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
Moment(s, k) == LET D == Dev(s) IN Sum([i \in DOMAIN s |-> Pow(D[i], k)])    \* n^k times the sum of k-th powers of deviations
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
(* linear interpolation between order statistics at position p (n - 1) *)
Quantile(s, p) == LET o == Sorted(s) h == (Len(s) - 1) * p[1] f == h \div p[2] IN
                  IF h % p[2] = 0 THEN <<o[f + 1], 1>>
                  ELSE RAdd(<<o[f + 1], 1>>, RMul(<<o[f + 2] - o[f + 1], 1>>, Norm(h % p[2], p[2])))
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
One(s) ==
  LET n == Len(s) o == Sorted(s) IN
  [x |-> s, n |-> n, D |-> Dev(s), mean |-> Norm(Sum(s), n),
   var |-> IF Exact /\ n > 1 THEN Norm(Moment(s, 2), n * n * (n - 1)) ELSE <<>>, pvar |-> IF Exact THEN Norm(Moment(s, 2), n * n * n) ELSE <<>>,
   (* skewness = c3 * sum z^3, kurtosis = c4 * sum z^4 - e4, z the deviations over the sample standard deviation *)
   c3 |-> IF n > 2 THEN Norm(n, (n - 1) * (n - 2)) ELSE <<>>,
   c4 |-> IF n > 3 THEN Norm(n * (n + 1), (n - 1) * (n - 2) * (n - 3)) ELSE <<>>,
   e4 |-> IF n > 3 THEN Norm(3 * (n - 1) * (n - 1), (n - 2) * (n - 3)) ELSE <<>>,
   prod |-> IF Exact /\ (\A i \in DOMAIN s : s[i] > 0) THEN <<Prod(s)>> ELSE <<>>,
   harm |-> IF Exact /\ (\A i \in DOMAIN s : s[i] > 0) THEN RDiv(<<n, 1>>, RSumSeq([i \in DOMAIN s |-> <<1, s[i]>>])) ELSE <<>>,
   min |-> o[1], max |-> o[n], range |-> o[n] - o[1], median |-> Quantile(s, <<1, 2>>),
   iqr |-> o[(3 * n) \div 4 + 1] - o[n \div 4 + 1], q |-> [i \in DOMAIN Ps |-> Quantile(s, Ps[i])]]
Two(s, t) ==
  LET D == Dev(s) E == Dev(t) n == Len(s) IN
  [x |-> s, y |-> t, cov |-> Norm(Sum([i \in DOMAIN s |-> D[i] * E[i]]), n * n * (n - 1)),
   vx |-> Norm(Moment(s, 2), n * n * (n - 1)), vy |-> Norm(Moment(t, 2), n * n * (n - 1))]
RECURSIVE RandSeq(_)
RandSeq(n) == IF n = 0 THEN <<>> ELSE <<RandomElement(Vals)>> \o RandSeq(n - 1)
Seqs(n) == [1 .. n -> Vals]
Init == x = <<>> /\ y = <<>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\
  CASE Kind = "one" -> y' = <<>> /\ \E n \in MinLen .. MaxLen : x' \in Seqs(n)
    [] Kind = "two" -> \E n \in MinLen .. MaxLen : x' \in Seqs(n) /\ y' \in Seqs(n)
    [] Kind = "simone" -> y' = <<>> /\ \E n \in {RandomElement(MinLen .. MaxLen)} : x' = TLCEval(RandSeq(n))
    [] OTHER -> \E n \in {RandomElement(MinLen .. MaxLen)} : x' = TLCEval(RandSeq(n)) /\ y' = TLCEval(RandSeq(n))
Spec == Init /\ [][Next]_vars
(* properties of the definitions themselves *)
Perm(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Shift(s) == [i \in DOMAIN s |-> s[i] + 3]
Same(a, b) == [a EXCEPT !.x = <<>>, !.D = <<>>] = [b EXCEPT !.x = <<>>, !.D = <<>>]
Sane == done => LET o == One(x) IN
  /\ Sum(Dev(x)) = 0 /\ Same(o, One(Perm(x))) /\ (o.n > 1 => One(Shift(x)).var = o.var)
  /\ ~RLess(o.mean, <<o.min, 1>>) /\ ~RLess(<<o.max, 1>>, o.mean)
  /\ (o.harm # <<>> => ~RLess(o.mean, o.harm))
  /\ Quantile(x, <<0, 1>>) = <<o.min, 1>> /\ Quantile(x, <<1, 1>>) = <<o.max, 1>>
  /\ (Len(x) > 1 /\ Len(y) = Len(x) => LET t == Two(x, y) IN t.cov = Two(y, x).cov /\ (Kind = "two" => ~RLess(RMul(t.vx, t.vy), RMul(t.cov, t.cov))))
Emit == ~done \/ PrintT(ToJson(IF y = <<>> THEN One(x) ELSE Two(x, y)))
=============================================================================
