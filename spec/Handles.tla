------------------------------ MODULE Handles -------------------------------
(* Variables of a computation graph as values: handles that can be copied,   *)
(* compared, classified, rounded and printed.  A handle knows its graph, its *)
(* vertex and its number; rounding changes the number of that handle alone.  *)
(* Numbers are those of binary64: not-a-number, the infinities, two zeros,   *)
(* denormals, and ordinary ones: quarters of integers, and those a hair      *)
(* nearer to zero than a half ("near"); each with a sign.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Values, Sim
(* a number is <<sign, class, quarters>> with sign 1 or -1                                         *)
Nan == <<1, "nan", 0>>
IsNan(v) == v[2] = "nan"
Size(v) == IF v[2] = "zero" THEN 0 ELSE IF v[2] = "sub" THEN 1 ELSE IF v[2] = "inf" THEN 2000000000 ELSE 4 * v[3] - IF v[2] = "near" THEN 1 ELSE 0
Rank(v) == v[1] * Size(v)
Same(a, b) == ~IsNan(a) /\ ~IsNan(b) /\ Rank(a) = Rank(b)
Order(a, b) == IF IsNan(a) \/ IsNan(b) THEN "none" ELSE IF Rank(a) < Rank(b) THEN "less" ELSE IF Rank(a) > Rank(b) THEN "greater" ELSE "equal"
(* nearest integer, halves away from zero, the sign kept even by a zero                            *)
Plain(v) == v[2] \in {"num", "near"}
Round(v) == LET k == (v[3] + IF v[2] = "near" THEN 1 ELSE 2) \div 4 IN
            IF v[2] = "sub" \/ (Plain(v) /\ k = 0) THEN <<v[1], "zero", 0>> ELSE IF Plain(v) THEN <<v[1], "num", 4 * k>> ELSE v
Neg(v) == IF IsNan(v) THEN v ELSE <<-v[1], v[2], v[3]>>
Is(v) == [finite |-> v[2] \in {"zero", "sub", "num", "near"}, infinite |-> v[2] = "inf", nan |-> IsNan(v), normal |-> Plain(v), subnormal |-> v[2] = "sub",
          zero |-> v[2] = "zero", positive |-> v[1] = 1, negative |-> v[1] = -1, signum |-> v[1]]
VARIABLES hist, hs, len           \* hs: handles in order of creation; len: vertices of either graph
vars == <<hist, hs, len>>
HEq(a, b) == a.g = b.g /\ a.i = b.i /\ Same(a.v, b.v)
Log(e, h) == hist' = Append(hist, [e |-> e, see |-> [
    is |-> [k \in DOMAIN h |-> Is(h[k].v)], v |-> [k \in DOMAIN h |-> h[k].v], at |-> [k \in DOMAIN h |-> <<h[k].g, h[k].i>>],
    eq |-> [j \in DOMAIN h |-> [k \in DOMAIN h |-> HEq(h[j], h[k])]], veq |-> [j \in DOMAIN h |-> [k \in DOMAIN h |-> Same(h[j].v, h[k].v)]],
    ord |-> [j \in DOMAIN h |-> [k \in DOMAIN h |-> Order(h[j].v, h[k].v)]]]])
Do(e, h, l) == hs' = h /\ len' = l /\ Log(e, h)
Var(g, v) == Do(<<"var", g, v>>, Append(hs, [g |-> g, i |-> len[g], v |-> v]), [len EXCEPT ![g] = @ + 1])
Copy(k) == Do(<<"copy", k>>, Append(hs, hs[k]), len)
RoundH(k) == Do(<<"round", k>>, [hs EXCEPT ![k].v = Round(@)], len)
NegH(k) == Do(<<"neg", k>>, Append(hs, [g |-> hs[k].g, i |-> len[hs[k].g], v |-> Neg(hs[k].v)]), [len EXCEPT ![hs[k].g] = @ + 1])
Init == hist = <<>> /\ hs = <<>> /\ len = <<0, 0>>
Next == /\ Len(hist) < MaxLen
        /\ IF Sim THEN LET r == IF hs = <<>> THEN 1 ELSE RandomElement(1 .. 7)  k == IF hs = <<>> THEN 1 ELSE RandomElement(DOMAIN hs) IN
                       IF r <= 3 THEN Var(RandomElement({1, 2}), RandomElement(Values)) ELSE IF r = 4 THEN Copy(k) ELSE IF r = 5 THEN NegH(k) ELSE RoundH(k)
           ELSE (\E g \in {1, 2}, v \in Values : Var(g, v)) \/ (\E k \in DOMAIN hs : Copy(k) \/ RoundH(k) \/ NegH(k))
Spec == Init /\ [][Next]_vars
(* Laws.  Equal handles compare as equal, and equality and order are those of numbers: equality is *)
(* symmetric and transitive, order total where no not-a-number takes part and transitive.          *)
Laws == \A j, k \in DOMAIN hs : LET a == hs[j]  b == hs[k] IN
          /\ HEq(a, b) = HEq(b, a)
          /\ HEq(a, b) => Order(a.v, b.v) = "equal"
          /\ (Order(a.v, b.v) = "less") = (Order(b.v, a.v) = "greater")
          /\ Order(a.v, b.v) = "less" => Order(Round(b.v), Round(a.v)) # "less"      \* rounding keeps order
          /\ \A l \in DOMAIN hs : (Order(a.v, b.v) = "less" /\ Order(b.v, hs[l].v) = "less") => Order(a.v, hs[l].v) = "less"
          /\ Is(a.v).finite = ~(Is(a.v).infinite \/ Is(a.v).nan)
(* two handles of one vertex differ only by rounding; the tape never changes under a handle        *)
Distinct == \A j, k \in DOMAIN hs : (j # k /\ hs[j].g = hs[k].g /\ hs[j].i = hs[k].i) => (Same(Round(hs[j].v), Round(hs[k].v)) \/ IsNan(hs[j].v))
Emit == Len(hist) < MaxLen \/ PrintT(ToJson(hist))
=============================================================================
