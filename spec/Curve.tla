------------------------------- MODULE Curve --------------------------------
(* A curve: dated rates that can be inserted, overwritten and shifted, and   *)
(* queried at any date.  Queries are answered from the current nodes.        *)
(*                                                                           *)
(* A rate inserted by a query lies on the interpolant; it is kept symbolic   *)
(* (the position only), so node values are rationals or the position where   *)
(* the current interpolant was read.  To stay exact for both methods the     *)
(* specification tracks values in the coordinate in which the method is      *)
(* linear: a node value is a rational affine coordinate c, meaning c itself  *)
(* for the linear method and B^c for the exponential one.                    *)
EXTENDS Rat, TLC, Json, FiniteSets
CONSTANTS Days, Asks, Cs, Shifts, MaxLen, Sim, Linear
VARIABLES nodes, hist
vars == <<nodes, hist>>
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
None == <<>>
(* Some coordinate inside the range of dates, nothing outside it *)
Rate(N, d) ==
  LET S == DOMAIN N IN
  IF S = {} \/ d < Min(S) \/ d > Max(S) THEN None
  ELSE IF d \in S THEN <<N[d]>>
  ELSE LET l == Max({y \in S : y < d}) r == Min({y \in S : y > d}) IN
       <<RAdd(N[l], RMul(RSub(N[r], N[l]), Norm(d - l, r - l)))>>
Brackets(N, d) ==
  LET S == DOMAIN N IN
  IF d <= Min(S) THEN <<Min(S), Min(S)>> ELSE IF d >= Max(S) THEN <<Max(S), Max(S)>>
  ELSE <<Max({y \in S : y < d}), Min({y \in S : y >= d})>>
Set(N, d, c) == [x \in DOMAIN N \cup {d} |-> IF x = d THEN c ELSE N[x]]
RECURSIVE Order(_)
Order(S) == IF S = {} THEN <<>> ELSE <<Min(S)>> \o Order(S \ {Min(S)})
View(N) == LET o == Order(DOMAIN N) IN [d |-> o, c |-> [i \in DOMAIN o |-> N[o[i]]]]
AskAll(N) == LET q == Order(Asks) IN
  [q |-> q, r |-> [i \in DOMAIN q |-> Rate(N, q[i])], b |-> [i \in DOMAIN q |-> IF DOMAIN N = {} THEN <<>> ELSE Brackets(N, q[i])]]
Log(e, x, N) == hist' = Append(hist, [e |-> e, x |-> x, n |-> View(N), a |-> AskAll(N)])
RECURSIVE Extend(_, _)
Extend(N, s) == IF s = <<>> THEN N ELSE Extend(Set(N, s[1][1], s[1][2]), SubSeq(s, 2, Len(s)))
Empty == [x \in {} |-> R0]
Make(how, s) == LET N == Extend(Empty, s) IN nodes' = N /\ Log(<<"make", how, s>>, None, N)
SetRate(d, c) == LET N == Set(nodes, d, c) IN nodes' = N /\ Log(<<"set", d, c>>, None, N)
SetRates(s) == LET N == Extend(nodes, s) IN nodes' = N /\ Log(<<"sets", s>>, None, N)
Get(d) == UNCHANGED nodes /\ Log(<<"get", d>>, <<Rate(nodes, d)>>, nodes)
RECURSIVE InsAll(_, _)
InsAll(N, q) == IF q = <<>> THEN N
                ELSE InsAll(IF Rate(N, q[1]) = None THEN N ELSE Set(N, q[1], Rate(N, q[1])[1]), SubSeq(q, 2, Len(q)))
RECURSIVE InsAns(_, _)
InsAns(N, q) == IF q = <<>> THEN <<>>
                ELSE <<Rate(N, q[1])>> \o InsAns(InsAll(N, <<q[1]>>), SubSeq(q, 2, Len(q)))
Insert(d) == LET N == InsAll(nodes, <<d>>) IN nodes' = N /\ Log(<<"ins", d>>, <<Rate(nodes, d)>>, N)
Gets(q) == UNCHANGED nodes /\ Log(<<"gets", q>>, [i \in DOMAIN q |-> Rate(nodes, q[i])], nodes)
Inserts(q) == LET N == InsAll(nodes, q) IN nodes' = N /\ Log(<<"inss", q>>, InsAns(nodes, q), N)
(* a parallel shift is exact for the linear method only (coordinates are the rates themselves) *)
Shift(s) == Linear /\ LET N == [x \in DOMAIN nodes |-> RAdd(nodes[x], s)] IN nodes' = N /\ Log(<<"shift", s>>, None, N)

RD == RandomElement(Days)
RC == RandomElement(Cs)
RECURSIVE RandSeq(_)
RandSeq(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<<<x, RC>>>> \o RandSeq(S \ {x})
RandSub(n) == {x \in Days : RandomElement(1 .. 10) <= n}
SmallAll(N) == \A x \in DOMAIN N : Small(N[x], 4000)
RandNext ==
  LET r == RandomElement(1 .. 20) IN
  IF hist = <<>> THEN \E S \in {RandSub(RandomElement(1 .. 6))} : S # {} /\ \E s \in {TLCEval(RandSeq(S))} : \E h \in {RandomElement({"new", "nodes"})} : Make(h, s)
  ELSE CASE r <= 4 -> \E d \in {RD}, c \in {RC} : SetRate(d, c)
         [] r <= 6 -> \E s \in {TLCEval(RandSeq(RandSub(2)))} : SetRates(s)
         [] r <= 9 -> \E d \in {RandomElement(Asks)} : Get(d)
         [] r <= 13 -> \E d \in {RandomElement(Asks)} : Insert(d)
         [] r <= 15 -> \E q \in {<<RandomElement(Asks), RandomElement(Asks), RD>>} : Gets(q)
         [] r <= 17 -> \E q \in {<<RandomElement(Asks), RandomElement(Asks), RD>>} : Inserts(q)
         [] OTHER -> IF Linear THEN \E s \in {RandomElement(Shifts)} : Shift(s) ELSE \E d \in {RD}, c \in {RC} : SetRate(d, c)
AllNext ==
  IF hist = <<>> THEN \E d, e \in Days : d # e /\ \E c, b \in Cs : Make("new", <<<<d, c>>, <<e, b>>>>)
  ELSE (\E d \in Days : \E c \in Cs : SetRate(d, c)) \/ (\E d \in Asks : Insert(d)) \/ \E s \in Shifts : Shift(s)
Init == nodes = Empty /\ hist = <<>>
Next == Len(hist) < MaxLen /\ (IF Sim THEN RandNext ELSE AllNext) /\ SmallAll(nodes')
Spec == Init /\ [][Next]_vars
(* inserting a queried rate never changes what the curve answers elsewhere; asking never changes anything *)
InsertNeutral == [][LET h == hist'[Len(hist')] IN h.e[1] \in {"get", "gets", "ins", "inss"} =>
                      \A q \in Asks : Rate(nodes', q) = Rate(nodes, q)]_vars
BracketsAdjacent == DOMAIN nodes = {} \/ \A q \in Asks : LET b == Brackets(nodes, q) IN
                      b[1] <= b[2] /\ b[1] \in DOMAIN nodes /\ b[2] \in DOMAIN nodes /\ ~\E x \in DOMAIN nodes : b[1] < x /\ x < b[2]
Emit == Len(hist) < MaxLen \/ PrintT(ToJson(hist))
=============================================================================
