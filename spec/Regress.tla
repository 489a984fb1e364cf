------------------------------- MODULE Regress -------------------------------
(* Least squares problems over integers.  For the design matrix X with a     *)
(* leading column of ones, the fitted b solves X'X b = X'y; ridge adds       *)
(* lambda to the diagonal except the intercept's entry; without an intercept *)
(* the column of ones is dropped.  Lasso (objective 1/(2n) |y - Xb|^2 +      *)
(* lambda |b|_1 on centred data when there is an intercept) is characterised *)
(* by its subgradient conditions, stated with the centred Gram matrix.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS XV, YV, NF, MinN, MaxN, Sim
VARIABLES X, y, done
vars == <<X, y, done>>
n == Len(y)
RECURSIVE SumTo(_, _)
SumTo(f, m) == IF m = 0 THEN 0 ELSE SumTo(f, m - 1) + f[m]
Ones(i) == [j \in 1 .. NF + 1 |-> IF j = 1 THEN 1 ELSE X[i][j - 1]]
Gram(R, m) == [a \in 1 .. m |-> [b \in 1 .. m |-> SumTo([i \in 1 .. n |-> R[i][a] * R[i][b]], n)]]
Rhs(R, m) == [a \in 1 .. m |-> SumTo([i \in 1 .. n |-> R[i][a] * y[i]], n)]
With == [i \in 1 .. n |-> Ones(i)]
(* n times the centred data *)
Cen == [i \in 1 .. n |-> [a \in 1 .. NF |-> n * X[i][a] - SumTo([j \in 1 .. n |-> X[j][a]], n)]]
Det2(a) == a[1][1] * a[2][2] - a[1][2] * a[2][1]
Det3(a) == a[1][1] * (a[2][2] * a[3][3] - a[2][3] * a[3][2]) - a[1][2] * (a[2][1] * a[3][3] - a[2][3] * a[3][1]) + a[1][3] * (a[2][1] * a[3][2] - a[2][2] * a[3][1])
Det(a) == IF Len(a) = 1 THEN a[1][1] ELSE IF Len(a) = 2 THEN Det2(a) ELSE Det3(a)
Repl(a, c, j) == [r \in DOMAIN a |-> [s \in DOMAIN a |-> IF s = j THEN c[r] ELSE a[r][s]]]
G == Gram(With, NF + 1)
R == Rhs(With, NF + 1)
(* Cramer's rule: b_j = num_j / det *)
Num == [j \in 1 .. NF + 1 |-> Det(Repl(G, R, j))]
RECURSIVE RandRow(_)
RandRow(m) == IF m = 0 THEN <<>> ELSE <<RandomElement(XV)>> \o RandRow(m - 1)
RECURSIVE RandX(_)
RandX(m) == IF m = 0 THEN <<>> ELSE <<RandRow(NF)>> \o RandX(m - 1)
RECURSIVE RandY(_)
RandY(m) == IF m = 0 THEN <<>> ELSE <<RandomElement(YV)>> \o RandY(m - 1)
Init == X = <<>> /\ y = <<>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\
  IF Sim THEN \E m \in {RandomElement(MinN .. MaxN)} : X' = TLCEval(RandX(m)) /\ y' = TLCEval(RandY(m))
  ELSE \E m \in MinN .. MaxN : X' \in [1 .. m -> [1 .. NF -> XV]] /\ y' \in [1 .. m -> YV]
Spec == Init /\ [][Next]_vars
Exact == NF <= 2
(* the centred system is the Schur complement of the full one: full rank with an intercept iff the centred Gram matrix is regular *)
Sane == done /\ Exact /\ ~Sim => (Det(G) = 0 <=> Det(Gram(Cen, NF)) = 0)
(* Cramer's solution solves the normal equations *)
Solves == done /\ Exact => LET d == Det(G) IN d = 0 \/ \A a \in 1 .. NF + 1 : SumTo([j \in 1 .. NF + 1 |-> G[a][j] * Num[j]], NF + 1) = d * R[a]
Emit == ~done \/ PrintT(ToJson([X |-> X, y |-> y, G |-> G, R |-> R, det |-> IF Exact THEN <<Det(G)>> ELSE <<>>, num |-> IF Exact THEN Num ELSE <<>>,
                                C |-> Gram(Cen, NF), c |-> Rhs(Cen, NF)]))
=============================================================================
