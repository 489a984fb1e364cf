------------------------------- MODULE Interp -------------------------------
(* Piecewise interpolation of a finite set of nodes (integer positions,      *)
(* rational values), and histories of an interpolator object.                *)
EXTENDS Rat, TLC, Json, FiniteSets
CONSTANTS Xs, Asks, Ys, MaxLen, Sim, MaxInit
VARIABLES nodes, hist
vars == <<nodes, hist>>

Below(S, x) == {y \in S : y < x}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
InRange(S, x) == S # {} /\ Min(S) <= x /\ x <= Max(S)
(* the answer of an interpolator at x: refused outside the node range, the   *)
(* node's value at a node, otherwise given by the two adjacent nodes alone   *)
At(N, x) ==
  LET S == DOMAIN N IN
  IF ~InRange(S, x) THEN [k |-> "outside"]
  ELSE IF x \in S THEN [k |-> "node", v |-> N[x]]
  ELSE LET l == Max({y \in S : y < x}) r == Min({y \in S : y > x}) t == Norm(x - l, r - l) IN
       [k |-> "between", l |-> N[l], r |-> N[r], t |-> t,
        lin |-> RAdd(N[l], RMul(RSub(N[r], N[l]), t))]
RECURSIVE Extend(_, _)
Extend(N, s) == IF s = <<>> THEN N
                ELSE Extend([x \in DOMAIN N \cup {s[1][1]} |-> IF x = s[1][1] THEN s[1][2] ELSE N[x]], SubSeq(s, 2, Len(s)))
Empty == [x \in {} |-> R0]

Log(e, x) == hist' = Append(hist, [e |-> e, x |-> x])
(* built from a sequence of distinct positions in any order *)
New(s) == nodes' = Extend(Empty, s) /\ Log(<<"new", s>>, [k |-> "ok"])
AddPoint(x, y) == nodes' = Extend(nodes, <<<<x, y>>>>) /\ Log(<<"add", x, y>>, [k |-> "ok"])
Ask(q) == UNCHANGED nodes /\ Log(<<"ask", q>>, [k |-> "asked", lo |-> Min(DOMAIN nodes), hi |-> Max(DOMAIN nodes),
                                                a |-> [i \in DOMAIN q |-> At(nodes, q[i])]])
(* fitting is not needed and changes nothing *)
Fit == UNCHANGED nodes /\ Log(<<"fit">>, [k |-> "ok"])
RECURSIVE Order(_)
Order(S) == IF S = {} THEN <<>> ELSE <<Min(S)>> \o Order(S \ {Min(S)})
Perms(S) == {p \in [1 .. Cardinality(S) -> S] : \A i, j \in 1 .. Cardinality(S) : p[i] = p[j] => i = j}
RY == RandomElement(Ys)
RECURSIVE RandSeq(_)
RandSeq(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<<<x, RY>>>> \o RandSeq(S \ {x})
RandSub(n) == {x \in Xs : RandomElement(1 .. 10) <= n}
RandNext ==
  IF hist = <<>> THEN \E S \in {RandSub(RandomElement(1 .. 9))} : S # {} /\ \E s \in {TLCEval(RandSeq(S))} : New(s)
  ELSE IF Len(hist) % 2 = 1 THEN Ask(Order(Asks))
  ELSE IF RandomElement(1 .. 6) = 1 THEN Fit
  ELSE IF Xs \subseteq DOMAIN nodes THEN Ask(Order(Asks))
       ELSE \E x \in {RandomElement(Xs \ DOMAIN nodes)}, y \in {RY} : AddPoint(x, y)
AllNext ==
  IF hist = <<>> THEN \E S \in (SUBSET Xs) \ {{}} : Cardinality(S) <= MaxInit /\ \E p \in Perms(S) : \E v \in [S -> Ys] :
                      New([i \in 1 .. Cardinality(S) |-> <<p[i], v[p[i]]>>])
  ELSE IF Len(hist) = 1 THEN (\E x \in Xs \ DOMAIN nodes : \E y \in Ys : AddPoint(x, y)) \/ Fit \/ Ask(Order(Asks))
  ELSE Len(hist) = 2 /\ hist[2].e[1] # "ask" /\ Ask(Order(Asks))
Init == nodes = Empty /\ hist = <<>>
Next == Len(hist) < MaxLen /\ IF Sim THEN RandNext ELSE AllNext
Spec == Init /\ [][Next]_vars
(* between two adjacent nodes the linear interpolant lies between their values; adding a node on it changes nothing *)
Sane == hist = <<>> \/ hist[Len(hist)].e[1] # "ask" \/ \A q \in Asks :
  LET a == At(nodes, q) IN a.k = "between" =>
     /\ ~RLess(a.lin, IF RLess(a.l, a.r) THEN a.l ELSE a.r) /\ ~RLess(IF RLess(a.l, a.r) THEN a.r ELSE a.l, a.lin)
Done == hist # <<>> /\ hist[Len(hist)].e[1] = "ask" /\ (Sim => Len(hist) >= MaxLen - 1)
Emit == ~Done \/ PrintT(ToJson(hist))
=============================================================================
