--------------------------------- MODULE FX ---------------------------------
(* An exchange of directed rates, money and its arithmetic.                  *)
EXTENDS Rat, TLC, Json, FiniteSets
CONSTANTS NCur, Rates, Amounts, MaxLen, Sim
VARIABLES rates,   \* function from the ordered pairs that were quoted to the latest rate
          hist
vars == <<rates, hist>>
Cur == 1 .. NCur
None == <<>>
Log(e, x) == hist' = Append(hist, [e |-> e, x |-> x])
Quoted(f, t) == <<f, t>> \in DOMAIN rates

Add(f, t, r) == /\ rates' = [p \in DOMAIN rates \cup {<<f, t>>} |-> IF p = <<f, t>> THEN r ELSE rates[p]]
                /\ Log(<<"add", f, t, r>>, [n |-> Cardinality(DOMAIN rates \cup {<<f, t>>})])
Get(f, t) == /\ UNCHANGED rates
             /\ Log(<<"get", f, t>>, [r |-> IF Quoted(f, t) THEN rates[<<f, t>>] ELSE None])
Convert(f, a, t) == /\ UNCHANGED rates
                    /\ Log(<<"convert", f, a, t>>,
                           IF Quoted(f, t) THEN [ok |-> TRUE, cur |-> t, amt |-> RMul(a, rates[<<f, t>>])]
                           ELSE [ok |-> FALSE, cur |-> 0, amt |-> R0])
(* a free-standing rate f->t applied to money in c *)
Direct(f, t, r, c, a) == /\ UNCHANGED rates
                         /\ Log(<<"direct", f, t, r, c, a>>,
                                IF c = f THEN [ok |-> TRUE, cur |-> t, amt |-> RMul(a, r)] ELSE [ok |-> FALSE, cur |-> 0, amt |-> R0])
Arith(o, c, a, d, b) ==
  /\ ~(o = "div" /\ b[1] = 0)
  /\ UNCHANGED rates
  /\ Log(<<"arith", o, c, a, d, b>>,
         IF c # d THEN [ok |-> FALSE, cur |-> 0, amt |-> R0]
         ELSE [ok |-> TRUE, cur |-> c,
               amt |-> CASE o = "add" -> RAdd(a, b) [] o = "sub" -> RSub(a, b) [] o = "mul" -> RMul(a, b) [] OTHER -> RDiv(a, b)])
(* equality, order and the derived comparisons: never across currencies *)
Compare(c, a, d, b) ==
  /\ UNCHANGED rates
  /\ Log(<<"cmp", c, a, d, b>>,
         [eq |-> c = d /\ a = b,
          ord |-> IF c # d THEN "none" ELSE IF a = b THEN "eq" ELSE IF RLess(a, b) THEN "lt" ELSE "gt"])
(* a round trip through both directions uses both quotes, not an inverse *)
RandNext ==
  LET r == RandomElement(1 .. 12) f == RandomElement(Cur) t == RandomElement(Cur)
      q == RandomElement(Rates) a == RandomElement(Amounts) b == RandomElement(Amounts)
      d == IF RandomElement(1 .. 3) = 1 THEN t ELSE f IN
  CASE r <= 4 -> Add(f, t, q) [] r <= 6 -> Get(f, t) [] r <= 9 -> Convert(f, a, t)
    [] r = 10 -> Direct(f, t, q, d, a)
    [] r = 11 -> Arith(RandomElement({"add", "sub", "mul"}), f, a, d, b)
    [] OTHER -> Compare(f, a, d, b)
AllNext ==
  \/ \E f, t \in Cur : Get(f, t) \/ (\E q \in Rates : Add(f, t, q)) \/ (\E a \in Amounts : Convert(f, a, t))
Init == rates = [p \in {} |-> R0] /\ hist = <<>>
Next == Len(hist) < MaxLen /\ IF Sim THEN RandNext ELSE AllNext
Spec == Init /\ [][Next]_vars
(* every stateless case once *)
Stateless == \/ \E f, t, c \in Cur, q \in Rates, a \in Amounts : Direct(f, t, q, c, a)
             \/ \E c, d \in Cur, a, b \in Amounts : Compare(c, a, d, b) \/ \E o \in {"add", "sub", "mul", "div"} : Arith(o, c, a, d, b)
StatelessSpec == Init /\ [][Len(hist) < 1 /\ Stateless]_vars
(* the latest quote is what the last Add of that ordered pair carried *)
LatestWins == \A p \in DOMAIN rates :
  LET S == {i \in DOMAIN hist : hist[i].e[1] = "add" /\ <<hist[i].e[2], hist[i].e[3]>> = p} IN
  S # {} /\ rates[p] = hist[CHOOSE i \in S : \A j \in S : j <= i].e[4]
Emit == Len(hist) < MaxLen \/ PrintT(ToJson(hist))
=============================================================================
