------------------------------ MODULE CashBook ------------------------------
(* Cash flows, a leg collecting them, and a simple quote.                    *)
EXTENDS Rat, TLC, Json, FiniteSets
CONSTANTS Amounts, Dates, Factors, MaxLen, Sim
VARIABLES flows,   \* cash flows created so far: [a |-> amount, d |-> date]
          leg,     \* sequence of cash flows
          quote,   \* <<>> or <<value>>
          hist
vars == <<flows, leg, quote, hist>>
M == 300
Log(e, x) == hist' = Append(hist, [e |-> e, x |-> x])
Keep(S) == \A i \in DOMAIN S : Small(S[i].a, M)
New(a, d) == /\ flows' = Append(flows, [a |-> a, d |-> d]) /\ UNCHANGED <<leg, quote>>
             /\ Log(<<"new", a, d>>, [ok |-> TRUE, f |-> <<[a |-> a, d |-> d]>>])
(* binary forms: plain and assigning; both keep the operands of the plain one *)
Two(o, i, j) ==
  LET x == flows[i] y == flows[j] r == [a |-> IF o \in {"add", "addas"} THEN RAdd(x.a, y.a) ELSE RSub(x.a, y.a), d |-> x.d] IN
  /\ UNCHANGED <<leg, quote>>
  /\ IF x.d # y.d THEN UNCHANGED flows /\ Log(<<"two", o, i, j>>, [ok |-> FALSE, f |-> <<>>])
     ELSE /\ Small(r.a, M)
          /\ flows' = Append(flows, r)
          /\ Log(<<"two", o, i, j>>, [ok |-> TRUE, f |-> <<r>>])
One(o, i, c) ==
  LET x == flows[i] r == [a |-> CASE o \in {"mul", "mulas"} -> RMul(x.a, c) [] o \in {"div", "divas"} -> RDiv(x.a, c) [] OTHER -> RNeg(x.a), d |-> x.d] IN
  /\ ~(o \in {"div", "divas"} /\ c[1] = 0) /\ Small(r.a, M)
  /\ flows' = Append(flows, r) /\ UNCHANGED <<leg, quote>>
  /\ Log(<<"one", o, i, c>>, [ok |-> TRUE, f |-> <<r>>])
Npv(i, c) == UNCHANGED <<flows, leg, quote>> /\ Log(<<"npv", i, c>>, [v |-> RMul(flows[i].a, c)])

LegNew(s) == /\ leg' = [k \in DOMAIN s |-> flows[s[k]]] /\ UNCHANGED <<flows, quote>> /\ Log(<<"legnew", s>>, [ok |-> TRUE])
LegAdd(i) == /\ leg' = Append(leg, flows[i]) /\ UNCHANGED <<flows, quote>> /\ Log(<<"legadd", i>>, [ok |-> TRUE])
LegDates == {leg[k].d : k \in DOMAIN leg}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Greatest(S) == CHOOSE x \in S : \A y \in S : x >= y
(* everything a leg answers: size, the flows in the order added, present value per unit factor, span, activity *)
LegAsk(c) ==
  LET tot == RSumSeq([k \in DOMAIN leg |-> RMul(leg[k].a, c)]) IN
  /\ UNCHANGED <<flows, leg, quote>>
  /\ Log(<<"legask", c, [k \in 1 .. Cardinality(Dates) |-> CHOOSE d \in Dates : Cardinality({e \in Dates : e < d}) = k - 1]>>,
         [n |-> Len(leg), f |-> leg, npv |-> tot,
          span |-> IF leg = <<>> THEN <<>> ELSE <<Least(LegDates), Greatest(LegDates)>>,
          act |-> [k \in 1 .. Cardinality(Dates) |->
                     LET d == CHOOSE d \in Dates : Cardinality({e \in Dates : e < d}) = k - 1 IN
                     leg # <<>> /\ Least(LegDates) <= d /\ d <= Greatest(LegDates)]])
(* a quote reports the last value set; setting returns the change; setting nothing changes nothing *)
QNew(v) == quote' = v /\ UNCHANGED <<flows, leg>> /\ Log(<<"qnew", v>>, [v |-> v])
QSet(v) == /\ quote' = (IF v = <<>> THEN quote ELSE v) /\ UNCHANGED <<flows, leg>>
           /\ Log(<<"qset", v>>, [diff |-> IF v = <<>> THEN R0 ELSE IF quote = <<>> THEN v[1] ELSE RSub(v[1], quote[1]),
                                   v |-> IF v = <<>> THEN quote ELSE v])
QReset == quote' = <<>> /\ UNCHANGED <<flows, leg>> /\ Log(<<"qreset">>, [v |-> <<>>])

Ops2 == {"add", "sub", "addas", "subas"}
Ops1 == {"mul", "div", "mulas", "divas", "neg", "negref", "negmut"}
F == RandomElement(DOMAIN flows)
RandNext ==
  LET r == RandomElement(1 .. 24) a == RandomElement(Amounts) c == RandomElement(Factors) IN
  IF flows = <<>> \/ r <= 3 THEN New(a, RandomElement(Dates))
  ELSE CASE r <= 7 -> Two(RandomElement(Ops2), F, F) [] r <= 10 -> One(RandomElement(Ops1), F, c)
         [] r = 11 -> Npv(F, c) [] r <= 14 -> LegAdd(F) [] r <= 17 -> LegAsk(c)
         [] r = 18 -> LET s == RandomElement({<<>>, <<F>>, <<F, F>>, <<F, F, F>>}) IN LegNew(s)
         [] r = 19 -> QNew(<<>>) [] r = 20 -> QNew(<<a>>) [] r <= 22 -> QSet(<<a>>)
         [] r = 23 -> QSet(<<>>) [] OTHER -> QReset
QNext == \/ \E a \in Amounts : QNew(<<a>>) \/ QSet(<<a>>)
         \/ QNew(<<>>) \/ QSet(<<>>) \/ QReset
LNext == IF Len(flows) < Cardinality(Dates)
         THEN New(CHOOSE a \in Amounts : TRUE, CHOOSE d \in Dates : Cardinality({e \in Dates : e < d}) = Len(flows))
         ELSE (\E i \in DOMAIN flows : LegAdd(i)) \/ LegAsk(CHOOSE c \in Factors : TRUE)
Init == flows = <<>> /\ leg = <<>> /\ quote = <<>> /\ hist = <<>>
Next == Len(hist) < MaxLen /\ CASE Sim = "sim" -> RandNext [] Sim = "quote" -> QNext [] OTHER -> LNext
Spec == Init /\ [][Next]_vars
LegSpan == \A k \in DOMAIN leg : Least(LegDates) <= leg[k].d /\ leg[k].d <= Greatest(LegDates)
Emit == Len(hist) < MaxLen \/ PrintT(ToJson(hist))
=============================================================================
