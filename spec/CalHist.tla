------------------------------ MODULE CalHist -------------------------------
(* A calendar object: the holidays its user added, and every query about it. *)
EXTENDS BusinessDays, TLC, Json
CONSTANTS Mode, MaxHist, Span, FirstYear, LastYear, Mk
VARIABLES k, base, extra, nb, hist
vars == <<k, base, extra, nb, hist>>

Init == k = "" /\ base = 0 /\ extra = {} /\ nb = {} /\ hist = <<>>
Pick == /\ base = 0
        /\ \E kk \in {RandomElement(Mk)}, y \in {RandomElement(FirstYear .. LastYear)}, d \in {RandomElement(1 .. 365)} :
             LET b == DN(y, 1, 1) + d IN
             /\ k' = kk /\ base' = b
             /\ nb' = NonBusiness(kk, (b - 60) .. (b + Span + 60))
        /\ UNCHANGED <<extra, hist>>

RD == base + RandomElement(0 .. Span)
RSeq(n) == [i \in 1 .. n |-> RD]
Log(c, a) == hist' = Append(hist, [c |-> c, a |-> a])
Same == UNCHANGED <<k, base, extra, nb>>
Add(S, c) == /\ extra' = extra \cup S /\ nb' = nb \cup S /\ Log(c, TRUE) /\ UNCHANGED <<k, base>>

AddOne == \E j \in {RD} : Add({j}, <<"addh", j>>)
AddMany == \E s \in {RSeq(RandomElement(0 .. 4))} : Add({s[i] : i \in DOMAIN s}, <<"addhs", s>>)
AddRun == \E a \in {RD}, n \in {RandomElement(2 .. 12)} :      \* a run of days, given backwards
            Add(a .. (a + n), <<"addhs", [i \in 1 .. (n + 1) |-> a + n + 1 - i]>>)
Clone == Same /\ Log(<<"clone">>, TRUE)
Sorted(S) == CHOOSE s \in [1 .. Cardinality(S) -> S] : \A i, j \in 1 .. Cardinality(S) : i < j => s[i] < s[j]
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A z \in S : x <= z IN <<m>> \o SortSet(S \ {m})
Extra == Same /\ Log(<<"extra">>, SortSet(extra))
Flags == \E j \in {RD} : Same /\ \/ Log(<<"bd", j>>, j \notin nb)
                                  \/ Log(<<"hol", j>>, j \in Hol(k, Y(j)) \cup extra)
                                  \/ Log(<<"wkd", j>>, W(j) \in WeekendDays(k))
Rolls == \E j \in {RD}, i \in {RandomElement(1 .. 6)} : Same /\ Log(<<"roll", j, Convs[i]>>, Roll(nb, Convs[i], j))
RollMany == \E s \in {RSeq(RandomElement(0 .. 5))}, i \in {RandomElement(1 .. 6)} :
              Same /\ Log(<<"rolls", s, Convs[i]>>, [n \in DOMAIN s |-> Roll(nb, Convs[i], s[n])])
NextPrev == \E j \in {RD} : Same /\ (Log(<<"nbd", j>>, Nxt(nb, j)) \/ Log(<<"pbd", j>>, Prv(nb, j)))
Counts == \E a, b \in {RD, RD} : Same /\ (Log(<<"bdc", a, b>>, BusinessCount(nb, a, b)) \/ Log(<<"cdc", a, b>>, b - a))
CountMany == \E s \in {RSeq(RandomElement(2 .. 5))} : Same /\
   (Log(<<"bdcs", s>>, [n \in 1 .. Len(s) - 1 |-> BusinessCount(nb, s[n], s[n + 1])])
    \/ Log(<<"cdcs", s>>, [n \in 1 .. Len(s) - 1 |-> s[n + 1] - s[n]]))
Schedule == \E s \in {RSeq(RandomElement(1 .. 5))}, i \in {RandomElement(1 .. 6)}, f \in {RandomElement({360, 364, 365, 366})} :
   Same /\ LET r == [n \in DOMAIN s |-> Roll(nb, Convs[i], s[n])] IN
     Log(<<"sched", s, Convs[i], f>>, <<r, [n \in 1 .. Len(s) - 1 |-> r[n + 1] - r[n]]>>)
Act == Pick \/ (base # 0 /\ (AddOne \/ AddMany \/ AddRun \/ Clone \/ RollMany
                 \/ (Mode = "days" /\ (Extra \/ Flags \/ Rolls \/ NextPrev \/ Counts \/ CountMany))
                 \/ (Mode = "schedule" /\ Schedule)))
Emit == \/ Len(hist) < MaxHist
        \/ PrintT(ToJson([k |-> k, h |-> hist]))
SimSpec == Init /\ [][Len(hist) < MaxHist /\ Act]_vars
TypeOK == extra \subseteq nb /\ \A j \in extra : j >= base
=============================================================================
