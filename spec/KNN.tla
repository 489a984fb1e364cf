--------------------------------- MODULE KNN ---------------------------------
(* k nearest neighbours over integer points: which labels a majority of the  *)
(* k nearest can have, for every way of breaking ties of distance.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Points, Queries, Labels, MinN, MaxN, Ps, Sim
VARIABLES data, query, k, p, done
vars == <<data, query, k, p, done>>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
(* a monotone image of the Minkowski distance of order p: the sum of p-th powers *)
Dist(a, b) == LET RECURSIVE S(_)
                  S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + Pow(Abs(a[i] - b[i]), p) IN S(Len(a))
DistsTo(q) == [i \in DOMAIN data |-> Dist(data[i][1], q)]
Dists == DistsTo(query)
RadiusOf(D) == CHOOSE r \in {D[i] : i \in DOMAIN data} : Cardinality({j \in DOMAIN data : D[j] < r}) < k /\ Cardinality({j \in DOMAIN data : D[j] <= r}) >= k
Count(S, l) == Cardinality({i \in S : data[i][2] = l})
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
(* label l can have the most votes: take as many l from the edge as possible; the places left must fit below that number *)
CanWin(In, Edge, l) ==
  LET r == k - Cardinality(In) t == Min2(r, Count(Edge, l)) v == Count(In, l) + t O == Labels \ {l} IN
  /\ v > 0 /\ \A m \in O : Count(In, m) <= v
  /\ SumOver(O, [m \in O |-> Min2(Count(Edge, m), v - Count(In, m))]) >= r - t
AllowedAt(q) == LET D == TLCEval(DistsTo(q)) r == TLCEval(RadiusOf(D)) In == {i \in DOMAIN data : D[i] < r} Edge == {i \in DOMAIN data : D[i] = r} IN
           {l \in Labels : CanWin(In, Edge, l)}
Allowed == AllowedAt(query)
(* a second row asked for in the same call *)
Other == IF Cardinality(Queries) = 1 THEN query ELSE CHOOSE q \in Queries : q # query
(* the same by enumeration *)
Winners(S) == {l \in Labels : Count(S, l) > 0 /\ \A m \in Labels : Count(S, m) <= Count(S, l)}
AllowedByChoice == LET D == TLCEval(Dists) r == RadiusOf(D) In == {i \in DOMAIN data : D[i] < r} Edge == {i \in DOMAIN data : D[i] = r} IN
                   UNION {Winners(In \cup S) : S \in {T \in SUBSET Edge : Cardinality(T) = k - Cardinality(In)}}
RandPt == RandomElement(Points)
RECURSIVE RandData(_)
RandData(n) == IF n = 0 THEN <<>> ELSE <<<<RandPt, RandomElement(Labels)>>>> \o RandData(n - 1)
Init == data = <<>> /\ query = <<>> /\ k = 0 /\ p = 1 /\ done = FALSE
Next == ~done /\ done' = TRUE /\
  IF Sim THEN \E n \in {RandomElement(MinN .. MaxN)} : data' = TLCEval(RandData(n)) /\ query' = RandomElement(Queries) /\ k' = RandomElement(1 .. n) /\ p' = RandomElement(Ps)
  ELSE \E n \in MinN .. MaxN : data' \in [1 .. n -> Points \X Labels] /\ query' \in Queries /\ k' \in 1 .. n /\ p' \in Ps
Spec == Init /\ [][Next]_vars
(* with one neighbour the label is that of a nearest point; with all of them distances do not matter *)
Sane == done => /\ Allowed # {} /\ (k = 1 => \A l \in Allowed : \E i \in DOMAIN data : data[i][2] = l /\ \A j \in DOMAIN data : Dists[i] <= Dists[j])
                /\ (k = Len(data) => Allowed = Winners(DOMAIN data)) /\ (~Sim => Allowed = AllowedByChoice)
Emit == ~done \/ PrintT(ToJson([d |-> data, q |-> query, k |-> k, p |-> p, a |-> Allowed, q2 |-> Other, a2 |-> AllowedAt(Other)]))
=============================================================================
