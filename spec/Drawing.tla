------------------------------ MODULE Drawing -------------------------------
(* The picture of a tape: one node per vertex, marked as an input with its   *)
(* value exactly when it was named, and one arrow per operand, from the      *)
(* operand to the result, labelled with the operand's slot and its partial   *)
(* derivative.  A vertex that is its own parent has no operand in that slot. *)
(* Recorded pictures (drawings.json) are checked one per state.  Numbers are *)
(* in thousandths; the labels have two decimals.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Pics == JsonDeserialize("drawings.json")
VARIABLES n
DInit == n \in DOMAIN Pics
DSpec == DInit /\ [][UNCHANGED n]_n
Abs(x) == IF x < 0 THEN -x ELSE x
Label(shown, v) == shown = v \/ (v[1] = "num" /\ shown[1] = "num" /\ Abs(shown[2] - v[2]) <= 6)

Nodes(p) ==
  /\ Len(p.nodes) = Len(p.tape)
  /\ \A i \in DOMAIN p.tape : \E k \in DOMAIN p.nodes :
       LET node == p.nodes[k]
           named == {j \in DOMAIN p.vars : p.vars[j].i = i - 1} IN
       /\ node.i = i - 1
       /\ node.input = (named # {})
       /\ node.input => \E j \in named : Label(node.val, p.vars[j].val)
Operands(p) == {<<i, s>> \in (DOMAIN p.tape) \X {1, 2} : p.tape[i].parents[s] # i - 1}
Edges(p) ==
  /\ Len(p.edges) = Cardinality(Operands(p))
  /\ \A x \in Operands(p) : \E k \in DOMAIN p.edges :
       LET e == p.edges[k] IN
       /\ e.to = x[1] - 1 /\ e.slot = x[2] - 1 /\ e.from = p.tape[x[1]].parents[x[2]]
       /\ Label(e.val, p.tape[x[1]].partials[x[2]])
Verdict == PrintT(ToJson([n |-> n, nodes |-> Nodes(Pics[n]), edges |-> Edges(Pics[n])]))
=============================================================================
