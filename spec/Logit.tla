-------------------------------- MODULE Logit --------------------------------
(* Binary responses at integer points.  The fit maximises the likelihood:    *)
(* the score equations  sum_i (y_i - mu(x_i)) (1, x_i) = 0  hold.  It exists *)
(* when the classes overlap: for one feature, each class has points strictly *)
(* beyond a point of the other on both sides or shares inner points.         *)
(* For a saturated design (three affinely independent points in the plane,   *)
(* or two on the line) it is the table of log odds.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS XV, MinN, MaxN, Sim, Counts
VARIABLES obs, done
Xs(l) == {obs[i][1] : i \in {j \in DOMAIN obs : obs[j][2] = l}}
Max(S) == CHOOSE a \in S : \A b \in S : b <= a
Min(S) == CHOOSE a \in S : \A b \in S : a <= b
Overlap == Xs(0) # {} /\ Xs(1) # {} /\ Max(Xs(0)) > Min(Xs(1)) /\ Max(Xs(1)) > Min(Xs(0))
Separable == Xs(0) # {} /\ Xs(1) # {} /\ (Max(Xs(0)) < Min(Xs(1)) \/ Max(Xs(1)) < Min(Xs(0)))
RECURSIVE Rand(_)
Rand(n) == IF n = 0 THEN <<>> ELSE <<<<RandomElement(XV), RandomElement({0, 1})>>>> \o Rand(n - 1)
(* cells of a saturated design: point (feature vector) with numbers of failures and successes *)
Cells == {<<>>} \cup {<<[x |-> p[1], n |-> a, m |-> b], [x |-> p[2], n |-> c, m |-> d], [x |-> p[3], n |-> e, m |-> f]>> :
          p \in {<<<<0, 0>>, <<1, 0>>, <<0, 1>>>>, <<<<1, 1>>, <<-1, 2>>, <<0, -1>>>>}, a, b, c, d, e, f \in Counts}
Init == obs = <<>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\
  IF Counts # {} THEN obs' \in Cells \ {<<>>}
  ELSE IF Sim THEN \E n \in {RandomElement(MinN .. MaxN)} : obs' = TLCEval(Rand(n))
  ELSE \E n \in MinN .. MaxN : obs' \in {s \in [1 .. n -> XV \X {0, 1}] : \A i \in 1 .. n - 1 : s[i][1] < s[i + 1][1] \/ (s[i][1] = s[i + 1][1] /\ s[i][2] <= s[i + 1][2])}
Spec == Init /\ [][Next]_<<obs, done>>
Sane == done /\ Counts = {} => ~(Overlap /\ Separable)
Emit == ~done \/ PrintT(ToJson(IF Counts # {} THEN [cells |-> obs] ELSE [obs |-> obs, overlap |-> Overlap]))
=============================================================================
