---------------------------- MODULE DiscreteDist ----------------------------
(* Discrete distributions from their definition, exactly.  Bernoulli and       *)
(* binomial variables are counted out of independent trials, one trial after   *)
(* the other: the state is the distribution of the count so far, every weight  *)
(* an exact rational.  The discrete uniform gives equal weight to the integers *)
(* from a to b.  Moments, quantiles, median and mode are then read off the      *)
(* weights by their definitions.                                               *)
EXTENDS Rat, TLC, Json, FiniteSets
CONSTANTS Sets, Probs, Bounds      \* Sets: set of <<number of trials, p>>; Bounds: set of <<a, width>>
VARIABLES cfg, t, w                \* w: sequence of weights of lo, lo + 1, ..
vars == <<cfg, t, w>>
Trials == {[d |-> "binomial", n |-> c[1], p |-> c[2]] : c \in Sets}
          \cup {[d |-> "bernoulli", n |-> 1, p |-> p] : p \in Probs}
Unis == {[d |-> "uniform", n |-> 0, a |-> b[1], b |-> b[1] + b[2]] : b \in Bounds}
Init == \/ cfg \in Trials /\ t = 0 /\ w = <<<<1, 1>>>>
        \/ cfg \in Unis /\ t = 0 /\ w = [i \in 1 .. cfg.b - cfg.a + 1 |-> Norm(1, cfg.b - cfg.a + 1)]
RSub1(p) == RSub(<<1, 1>>, p)
(* one more trial: k successes come from k with a failure or k - 1 with a success *)
Trial == /\ t < cfg.n /\ t' = t + 1 /\ UNCHANGED cfg
         /\ w' = [i \in 1 .. Len(w) + 1 |-> RAdd(IF i <= Len(w) THEN RMul(w[i], RSub1(cfg.p)) ELSE R0,
                                                 IF i > 1 THEN RMul(w[i - 1], cfg.p) ELSE R0)]
Next == Trial
Spec == Init /\ [][Next]_vars
Done == t = cfg.n
Lo == IF cfg.d = "uniform" THEN cfg.a ELSE 0
At(i) == <<Lo + i - 1, 1>>
RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN <<1, 1>> ELSE RMul(a, RPow(a, k - 1))
Mean == RSumSeq([i \in 1 .. Len(w) |-> RMul(w[i], At(i))])
Central(k) == LET m == Mean IN RSumSeq([i \in 1 .. Len(w) |-> RMul(w[i], RPow(RSub(At(i), m), k))])
Cum(i) == RSumSeq([j \in 1 .. i |-> w[j]])
Leq(a, b) == ~RLess(b, a)
Medians == {i \in 1 .. Len(w) : Leq(<<1, 2>>, Cum(i)) /\ Leq(<<1, 2>>, RSub1(IF i = 1 THEN R0 ELSE Cum(i - 1)))}
Modes == {i \in 1 .. Len(w) : \A j \in 1 .. Len(w) : Leq(w[j], w[i])}
Sum1 == Cum(Len(w)) = <<1, 1>>
NonNeg == \A i \in 1 .. Len(w) : w[i][1] >= 0
(* the textbook closed forms follow from the definition *)
Closed == (Done /\ cfg.d # "uniform") =>
            /\ Mean = RMul(<<cfg.n, 1>>, cfg.p)
            /\ Central(2) = RMul(RMul(<<cfg.n, 1>>, cfg.p), RSub1(cfg.p))
ClosedU == (cfg.d = "uniform") => LET n == Len(w) IN Central(2) = Norm(n * n - 1, 12) /\ Mean = Norm(cfg.a + cfg.b, 2)
(* a median is never further from the mean than one (trials) *)
MedianNearMean == (Done /\ cfg.d # "uniform") => \A i \in Medians : Leq(RSub(At(i), Mean), <<1, 1>>) /\ Leq(RSub(Mean, At(i)), <<1, 1>>)
Emit == Done => PrintT(ToJson([cfg |-> cfg, lo |-> Lo, w |-> w, mean |-> Mean, m2 |-> Central(2), m3 |-> Central(3), m4 |-> Central(4),
                               med |-> {Lo + i - 1 : i \in Medians}, mode |-> {Lo + i - 1 : i \in Modes}]))
=============================================================================
