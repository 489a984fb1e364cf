-------------------------------- MODULE Seqs ---------------------------------
(* Arithmetic progressions, repetition and running sums over integers (or    *)
(* integer multiples of a unit).                                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Starts, Spans, Steps, Lens, Vals, SumLen
VARIABLES c
From(a, st, n) == [i \in 1 .. n |-> a + (i - 1) * st]
(* from a by st while not beyond b *)
Prog(a, b, st) == From(a, st, (b - a) \div st + 1)
(* n equally spaced values from a to b, both included *)
Lin(a, b, n) == From(a, (b - a) \div (n - 1), n)
Cum(v) == LET RECURSIVE S(_)
              S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + v[k] IN [k \in DOMAIN v |-> S(k)]
Init == c \in {<<"seq", a, a + d, st, Prog(a, a + d, st)>> : a \in Starts, d \in Spans, st \in Steps}
           \cup {<<"lin", a, a + st * (n - 1), n, Lin(a, a + st * (n - 1), n)>> : a \in Starts, st \in Steps, n \in Lens \ {1}}
           \cup {<<"rep", a, n, [i \in 1 .. n |-> a]>> : a \in Starts, n \in Lens \cup {0}}
           \cup {<<"refuse", a, b, n>> : a, b \in Starts, n \in Lens \cup {0}}
           \cup {<<"cum", v, Cum(v)>> : v \in UNION {[1 .. k -> Vals] : k \in 0 .. SumLen}}
           \cup {<<"cum", v, Cum(v)>> : v \in {[i \in 1 .. n |-> ((i * m + n) % 11) - 5] : n \in Lens, m \in Steps}}
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Refused == c[1] # "refuse" \/ c[2] >= c[3] \/ c[4] = 0
Ends == CASE c[1] = "seq" -> LET s == c[5] IN s[1] = c[2] /\ s[Len(s)] <= c[3] /\ s[Len(s)] + c[4] > c[3]
          [] c[1] = "lin" -> LET s == c[5] IN Len(s) = c[4] /\ s[1] = c[2] /\ s[c[4]] = c[3]
          [] c[1] = "cum" -> Len(c[3]) = Len(c[2]) /\ \A i \in 2 .. Len(c[2]) : c[3][i] - c[3][i - 1] = c[2][i]
          [] OTHER -> TRUE
Emit == ~Refused \/ PrintT(ToJson(c))
=============================================================================
