------------------------------ MODULE LOBTrace ------------------------------
(* Trace validation: is a recorded history of calls and answers of the real *)
(* Book a behaviour of LOB?  One specification step per recorded call; the   *)
(* recorded answer must be the one the specification gives.                  *)
EXTENDS LOB, Json
VARIABLE l, k
Traces == ndJsonDeserialize("traces.ndjson")
T == Traces[k].t
TInit == /\ k \in 1..Len(Traces) /\ l = 1 /\ Init
Ev(kind) == l <= Len(T) /\ T[l].c[1] = kind /\ l' = l + 1 /\ k' = k
AnswerOK == hist'[1].a = T[l].a
\* hist holds only the current call: it is reset before each step
TAdd == Ev("add") /\ LET c == T[l].c IN
          LET ok == c[2] \notin LiveIds(book) IN
          /\ book' = IF ok THEN Append(book, [id |-> c[2], buy |-> c[3], rem |-> c[4], px |-> c[5]]) ELSE book
          /\ last' = [kind |-> "add", qty |-> IF ok THEN c[4] ELSE 0]
          /\ hist' = <<[a |-> ok]>> /\ AnswerOK
TCan == Ev("can") /\ LET c == T[l].c IN
          /\ book' = Without(book, c[2])
          /\ last' = [kind |-> "can", qty |-> SumRem(book) - SumRem(book')]
          /\ hist' = <<[a |-> c[2] \in LiveIds(book)]>> /\ AnswerOK
TMkt == Ev("mkt") /\ LET c == T[l].c r == Exec(book, c[2], c[3], <<>>) IN
          /\ book' = r.bk
          /\ last' = [kind |-> "mkt", qty |-> c[2] - r.left]
          /\ hist' = <<[a |-> <<r.left = 0, r.fills>>]>> /\ AnswerOK
TNext == TAdd \/ TCan \/ TMkt
TSpec == TInit /\ [][TNext]_<<vars, l, k>>
\* every trace must reach its end: report those that do
Done == l = Len(T) + 1 => PrintT(ToJson([done |-> k]))
\* where a rejected trace stopped
Stuck == (l <= Len(T) /\ ~ENABLED TNext) => PrintT(ToJson([stuck |-> k, at |-> l, book |-> book]))
TIds == IdsUnique
=============================================================================
