----------------------------- MODULE Portfolio ------------------------------
(* A portfolio of named positions under price and quantity updates.          *)
EXTENDS Rat, TLC, Json, FiniteSets
CONSTANTS Names, Qties, Prices, MaxLen, Sim, MaxInit
VARIABLES pos,     \* function from the held names to [q, pp, cp]
          hist
vars == <<pos, hist>>
Held == DOMAIN pos
Val(p) == RMul(<<p.q, 1>>, p.cp)
Cost(p) == RMul(<<p.q, 1>>, p.pp)
(* everything the portfolio answers, as a function of the positions alone *)
Answers(P) ==
  LET v == RSumSet(DOMAIN P, LAMBDA n : Val(P[n])) c == RSumSet(DOMAIN P, LAMBDA n : Cost(P[n])) IN
  [v |-> v, c |-> c, p |-> RSub(v, c), nz |-> v[1] # 0, pos |-> [n \in DOMAIN P |-> <<P[n].q, P[n].pp, P[n].cp>>],
   w |-> [n \in DOMAIN P |-> Val(P[n])]]
Log(e, ok, P) == hist' = Append(hist, [e |-> e, ok |-> ok, x |-> Answers(P)])
Make(P) == pos' = P /\ Log(<<"make", [n \in DOMAIN P |-> <<P[n].q, P[n].pp, P[n].cp>>]>>, TRUE, P)
Price(n, c) == IF n \in Held THEN LET P == [pos EXCEPT ![n].cp = c] IN pos' = P /\ Log(<<"price", n, c>>, TRUE, P)
               ELSE UNCHANGED pos /\ Log(<<"price", n, c>>, FALSE, pos)
Qty(n, k) == IF n \in Held THEN LET P == [pos EXCEPT ![n].q = k] IN pos' = P /\ Log(<<"qty", n, k>>, TRUE, P)
             ELSE UNCHANGED pos /\ Log(<<"qty", n, k>>, FALSE, pos)
Insert(n, p) == LET P == [m \in Held \cup {n} |-> IF m = n THEN p ELSE pos[m]] IN pos' = P /\ Log(<<"insert", n, <<p.q, p.pp, p.cp>>>>, TRUE, P)
Remove(n) == LET P == [m \in Held \ {n} |-> pos[m]] IN pos' = P /\ Log(<<"remove", n>>, TRUE, P)
Pos == [q : Qties, pp : Prices, cp : Prices]
RP == [q |-> RandomElement(Qties), pp |-> RandomElement(Prices), cp |-> RandomElement(Prices)]
RN == RandomElement(Names)
RandNext ==
  LET r == RandomElement(1 .. 10) IN
  IF hist = <<>> THEN LET S == RandomElement({T \in SUBSET Names : Cardinality(T) <= MaxInit}) IN \E P \in {TLCEval([n \in S |-> RP])} : Make(P)
  ELSE CASE r <= 4 -> LET n == RN c == RandomElement(Prices) IN Price(n, c)
         [] r <= 7 -> LET n == RN k == RandomElement(Qties) IN Qty(n, k)
         [] r <= 9 -> \E n \in {RN}, p \in {TLCEval(RP)} : Insert(n, p)
         [] OTHER -> LET n == RN IN Remove(n)
AllNext ==
  IF hist = <<>> THEN \E S \in {T \in SUBSET Names : Cardinality(T) <= MaxInit} : \E P \in [S -> Pos] : Make(P)
  ELSE \E n \in Names : (\E c \in Prices : Price(n, c)) \/ (\E k \in Qties : Qty(n, k))
Init == pos = [n \in {} |-> 0] /\ hist = <<>>
Next == Len(hist) < MaxLen /\ IF Sim THEN RandNext ELSE AllNext
Spec == Init /\ [][Next]_vars
(* value = cost + profit, and the weights are the shares of the value *)
Balanced == hist = <<>> \/ LET x == hist[Len(hist)].x IN x.v = RAdd(x.c, x.p) /\ x.v = RSumSet(DOMAIN x.w, LAMBDA n : x.w[n])
OnlyNamed == [][hist' # hist /\ Len(hist) > 0 =>
                 LET e == hist'[Len(hist')].e IN \A m \in (DOMAIN pos \cap DOMAIN pos') : m # e[2] => pos'[m] = pos[m]]_vars
Emit == Len(hist) < MaxLen \/ PrintT(ToJson(hist))
=============================================================================
