-------------------------- MODULE LongstaffSchwartz --------------------------
(* American options by regression: the exercise policy runs backwards from   *)
(* maturity over the dates 1..m.  At each date a path that is in the money   *)
(* may be exercised -- for its payoff, replacing what it would have earned   *)
(* later -- and every other path keeps its later cash flow, discounted by    *)
(* one step.  Which in-the-money paths are exercised is the regression's     *)
(* business: here any choice is a behaviour, and the invariants hold for     *)
(* every policy.  The driver makes the regression's choice.                  *)
EXTENDS Rat, TLC, Json
CONSTANTS Dates, Paths,          \* numbers of exercise dates and of paths
          Pay,                   \* payoffs a path may see (integers)
          Disc                   \* one step's discount factor: <<n, d>>
VARIABLES pay,                   \* pay[j][i]: the payoff of path i at date j
          j,                     \* the date the cash flows are valued at
          cash,                  \* cash[i]: the value at date j of path i's cash flow
          stop                   \* stop[i]: the date at which path i is exercised
vars == <<pay, j, cash, stop>>
P == 1 .. Paths
DF == <<Disc[1], Disc[2]>>
RECURSIVE DPow(_)
DPow(i) == IF i = 0 THEN <<1, 1>> ELSE RMul(DF, DPow(i - 1))
RR(x) == <<x, 1>>
RLeq(a, b) == ~RLess(b, a)

Init == /\ pay \in [1 .. Dates -> [P -> Pay]]
        /\ j = Dates
        /\ cash = [i \in P |-> RR(pay[Dates][i])]
        /\ stop = [i \in P |-> Dates]
(* one step back: the paths of E are exercised, all of them in the money *)
Back(E) == /\ j > 1
           /\ \A i \in E : pay[j - 1][i] > 0
           /\ j' = j - 1
           /\ cash' = [i \in P |-> IF i \in E THEN RR(pay[j - 1][i]) ELSE RMul(DF, cash[i])]
           /\ stop' = [i \in P |-> IF i \in E THEN j - 1 ELSE stop[i]]
           /\ UNCHANGED pay
Next == \E E \in SUBSET P : Back(E)
LSpec == Init /\ [][Next]_vars

(* a cash flow is the payoff at its stopping date, discounted from there *)
CashIsStopped == \A i \in P : /\ stop[i] \in j .. Dates
                              /\ cash[i] = RMul(DPow(stop[i] - j), RR(pay[stop[i]][i]))
(* no policy beats foresight, none earns less than the worst date *)
AtDate(i, x) == RMul(DPow(x - j), RR(pay[x][i]))
Candidates(i) == {x \in j .. Dates : x = Dates \/ pay[x][i] > 0}
Between == \A i \in P : /\ \E x \in Candidates(i) : RLeq(cash[i], AtDate(i, x))
                        /\ \E x \in Candidates(i) : RLeq(AtDate(i, x), cash[i])
(* the price today: one more step of discounting *)
Price == RMul(DF, RDiv(RSumSeq([i \in P |-> cash[i]]), RR(Paths)))
European == (\A i \in P : stop[i] = Dates) /\ j = 1 =>
            Price = RMul(DPow(Dates), RDiv(RSumSeq([i \in P |-> RR(pay[Dates][i])]), RR(Paths)))

(* the bridge that fills the path in backwards -- x_j = x_{j+1} j/(j+1) + noise of variance j/(j+1) per   *)
(* step -- has the variance j and the covariances of the random walk it replaces                          *)
BridgeVar(x) == RAdd(RMul(RMul(<<x, x + 1>>, <<x, x + 1>>), RR(x + 1)), <<x, x + 1>>)
BridgeCov(x) == RMul(<<x, x + 1>>, RR(x + 1))
ASSUME \A x \in 1 .. 100 : BridgeVar(x) = RR(x) /\ BridgeCov(x) = RR(x)
=============================================================================
