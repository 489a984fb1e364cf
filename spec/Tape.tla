-------------------------------- MODULE Tape --------------------------------
(* Histories of the operation log (Wengert list) over two graphs: creating   *)
(* variables, operating on them (also across graphs, which is refused),      *)
(* differentiating, clearing, zeroing and joining.                           *)
(*                                                                           *)
(* The specification does not fix how many vertices an operation needs; it   *)
(* fixes who may depend on whom, what each event may do to each log and what *)
(* the answers are.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Vals, UOps, BOps, AOps, SOps, Consts, Folds, Sim
VARIABLES hist,      \* events with what is required of each
          vs         \* per created variable: graph, deps (variables its vertex reaches), live (its graph was not cleared since)
vars == <<hist, vs>>
G == {1, 2}
Live == {i \in DOMAIN vs : vs[i].live}

Refs(t) == CASE t[1] = "u" -> {t[3]} [] t[1] \in {"vv", "avv"} -> {t[3], t[4]} [] t[1] \in {"vs", "avs"} -> {t[3]}
             [] t[1] = "sv" -> {t[4]} [] OTHER -> {t[2][i] : i \in DOMAIN t[2]}
GraphsOf(t) == {vs[i].g : i \in Refs(t)}
Self == Len(vs) + 1
Log(e, x) == hist' = Append(hist, [e |-> e, x |-> x])

Var(g, x) == /\ vs' = Append(vs, [g |-> g, deps |-> {Self}, live |-> TRUE])
             /\ Log(<<"var", g, x>>, [ok |-> TRUE, new |-> 1, g |-> g, grow |-> "exact", leaf |-> TRUE])
Vars(g, s) == /\ vs' = vs \o [i \in 1 .. Len(s) |-> [g |-> g, deps |-> {Len(vs) + i}, live |-> TRUE]]
              /\ Log(<<"vars", g, s>>, [ok |-> TRUE, new |-> Len(s), g |-> g, grow |-> "exact", leaf |-> TRUE])
Op(t) ==
  IF Cardinality(GraphsOf(t)) > 1
  THEN /\ UNCHANGED vs            \* refused; nothing that existed changes
       /\ Log(<<"op", t>>, [ok |-> FALSE, new |-> 0, g |-> 0, grow |-> "any", leaf |-> FALSE])
  ELSE /\ vs' = Append(vs, [g |-> CHOOSE g \in GraphsOf(t) : TRUE, deps |-> {Self} \cup UNION {vs[i].deps : i \in Refs(t)}, live |-> TRUE])
       /\ Log(<<"op", t>>, [ok |-> TRUE, new |-> 1, g |-> CHOOSE g \in GraphsOf(t) : TRUE, grow |-> "some", leaf |-> FALSE])
(* The adjoint of a vertex the differentiated one does not depend on is zero. *)
Acc(i) == /\ UNCHANGED vs
          /\ Log(<<"acc", i>>, [ok |-> TRUE, new |-> 0, g |-> vs[i].g, grow |-> "none", leaf |-> FALSE,
                                deps |-> vs[i].deps, zero |-> {j \in Live : vs[j].g = vs[i].g} \ vs[i].deps])
Clear(g) == /\ vs' = [i \in DOMAIN vs |-> IF vs[i].g = g THEN [vs[i] EXCEPT !.live = FALSE] ELSE vs[i]]
            /\ Log(<<"clear", g>>, [ok |-> TRUE, new |-> 0, g |-> g, grow |-> "clear", leaf |-> FALSE])
Zero(g) == /\ vs' = [i \in DOMAIN vs |-> IF vs[i].g = g THEN [vs[i] EXCEPT !.deps = {i}] ELSE vs[i]]
           /\ Log(<<"zero", g>>, [ok |-> TRUE, new |-> 0, g |-> g, grow |-> "none", leaf |-> FALSE])
Join(g, k) == /\ UNCHANGED vs
              /\ Log(<<"join", g, k>>, [ok |-> TRUE, new |-> 0, g |-> g, grow |-> "none", leaf |-> FALSE])

Instr == {<<"u", o, i>> : o \in UOps, i \in Live}
    \cup {<<"vv", o, i, j>> : o \in BOps, i \in Live, j \in Live}
    \cup {<<"avv", o, i, j>> : o \in AOps, i \in Live, j \in Live}
    \cup {<<"vs", o, i, c>> : o \in SOps, i \in Live, c \in Consts}
    \cup {<<"avs", o, i, c>> : o \in AOps, i \in Live, c \in Consts}
    \cup {<<"sv", o, c, i>> : o \in SOps, i \in Live, c \in Consts}
    \cup {<<o, <<i, j, k>>>> : o \in Folds, i \in Live, j \in Live, k \in Live}
L == RandomElement(Live)
RandInstr ==
  CASE RandomElement(1 .. 10) <= 2 -> <<"u", RandomElement(UOps), L>>
    [] OTHER -> CASE RandomElement(1 .. 8) <= 5 -> <<"vv", RandomElement(BOps), L, L>>
       [] OTHER -> CASE RandomElement(1 .. 3) = 1 -> <<"avv", RandomElement(AOps), L, L>>
          [] OTHER -> CASE RandomElement(1 .. 4) = 1 -> <<"vs", RandomElement(SOps), L, RandomElement(Consts)>>
             [] OTHER -> CASE RandomElement(1 .. 3) = 1 -> <<"avs", RandomElement(AOps), L, RandomElement(Consts)>>
                [] OTHER -> CASE RandomElement(1 .. 2) = 1 -> <<"sv", RandomElement(SOps), RandomElement(Consts), L>>
                   [] OTHER -> <<RandomElement(Folds), <<L, L, L, L>>>>
RV == RandomElement(Vals)
RG == RandomElement(G)
RandNext ==
  LET r == RandomElement(1 .. 20) IN
  IF Live = {} THEN Vars(RG, <<RV, RV>>)
  ELSE CASE r <= 2 -> Var(RG, RV) [] r = 3 -> Vars(RG, <<RV, RV, RV>>)
         [] r = 4 -> (IF RandomElement(1 .. 3) = 1 THEN Clear(RG) ELSE Acc(L))
         [] r = 5 -> (IF RandomElement(1 .. 2) = 1 THEN Zero(RG) ELSE Acc(L))
         [] r = 6 -> Join(RG, RG) [] r <= 9 -> Acc(L)
         [] OTHER -> LET t == RandInstr IN Op(t)
AllNext ==
  \/ \E g \in G : (\E x \in Vals : Var(g, x) \/ Vars(g, <<x, x>>)) \/ Clear(g) \/ Zero(g) \/ (\E k \in G : Join(g, k))
  \/ \E i \in Live : Acc(i)
  \/ \E t \in Instr : Op(t)
Init == hist = <<>> /\ vs = <<>>
Next == Len(hist) < MaxLen /\ IF Sim THEN RandNext ELSE AllNext
Spec == Init /\ [][Next]_vars

(* properties of the specification itself *)
DepsWithinGraph == \A i \in DOMAIN vs : i \in vs[i].deps /\ \A j \in vs[i].deps : vs[j].g = vs[i].g /\ j <= i
LiveClosed == \A i \in Live : \A j \in vs[i].deps : vs[j].live
Emit == Len(hist) < MaxLen \/ PrintT(ToJson(hist))
=============================================================================
