----------------------------- MODULE ADPrograms -----------------------------
(* Straight-line programs over the differentiable operations: their values   *)
(* and the gradient of every intermediate result by the chain rule.          *)
EXTENDS Expr, TLC, Json
CONSTANTS NIn, MaxLen, Consts, Ints, Mode       \* Mode: "all", "chain" or "sim"
VARIABLES prog

Unary == {"abs", "acos", "acosh", "asin", "asinh", "atan", "atanh", "cbrt", "cos", "cosh", "exp", "exp2", "exp_m1", "ln",
          "ln_1p", "log10", "log2", "recip", "sin", "sinh", "sqrt", "tan", "tanh", "erf", "erfc", "neg"}
Infix == {"add", "sub", "mul", "div"}
Binary == Infix \cup {"powf", "log", "min", "max"}

UVal(o, a) ==
  CASE o = "exp2" -> Pow(Two, a) [] o = "exp_m1" -> <<"expm1", a>> [] o = "ln_1p" -> <<"log1p", a>>
    [] o = "log10" -> Div(Ln(a), Ln(N(10))) [] o = "log2" -> Div(Ln(a), Ln(Two)) [] o = "recip" -> Div(One, a)
    [] OTHER -> <<o, a>>
BVal(o, a, b) ==
  CASE o = "add" -> <<"add", a, b>> [] o = "sub" -> <<"sub", a, b>> [] o = "mul" -> <<"mul", a, b>> [] o = "div" -> <<"div", a, b>>
    [] o \in {"powf", "powi"} -> <<"pow", a, b>> [] o = "log" -> Div(Ln(a), Ln(b))
    [] OTHER -> <<o, a, b>>
R(k) == <<"r", k>>
C(c) == Q(c[1], c[2])
(* instructions: u op i | vv op i j | vs op i c | sv op c i | avv, avs (assigning forms) | sum, prod refs *)
Val(t) ==
  CASE t[1] = "u" -> UVal(t[2], R(t[3]))
    [] t[1] \in {"vv", "avv"} -> BVal(t[2], R(t[3]), R(t[4]))
    [] t[1] \in {"vs", "avs"} -> BVal(t[2], R(t[3]), C(t[4]))
    [] t[1] = "sv" -> BVal(t[2], C(t[3]), R(t[4]))
    [] t[1] = "sum" -> SumSeq([i \in DOMAIN t[2] |-> R(t[2][i])])
    [] t[1] = "prod" -> ProdSeq([i \in DOMAIN t[2] |-> R(t[2][i])])
Refs(t) == CASE t[1] = "u" -> {t[3]} [] t[1] \in {"vv", "avv"} -> {t[3], t[4]} [] t[1] \in {"vs", "avs"} -> {t[3]}
             [] t[1] = "sv" -> {t[4]} [] OTHER -> {t[2][i] : i \in DOMAIN t[2]}
(* Recorded deviations (known findings): the partials the existing test suite pins. *)
Deviates(t) == (t[1] = "u" /\ t[2] \in {"log10", "log2"}) \/ (t[1] = "sv" /\ t[2] \in {"min", "max"})
Partial(t, k) == D(Val(t), R(k))
RecordedPartial(t, k) ==
  IF t[1] = "u" /\ t[2] \in {"log10", "log2"} THEN Div(One, R(k))
  ELSE IF t[1] = "sv" /\ t[2] = "min" THEN <<"less", C(t[3]), R(k), One, Zero>>
  ELSE IF t[1] = "sv" /\ t[2] = "max" THEN <<"less", R(k), C(t[3]), One, Zero>>
  ELSE Partial(t, k)

RECURSIVE Chain(_, _, _, _)
Chain(S, t, n, rec) ==             \* sum over the arguments of partial * (their derivative by input n)
  IF S = {} THEN Zero
  ELSE LET k == CHOOSE k \in S : \A j \in S : k <= j IN
       Add(Mul(IF rec THEN RecordedPartial(t, k) ELSE Partial(t, k), <<"d", k, n>>), Chain(S \ {k}, t, n, rec))

Known == NIn + Len(prog)
Refs2(S) == S \X S
Last == {Known}                    \* in "chain" mode every instruction uses the newest result
Must(t) == Mode # "chain" \/ prog = <<>> \/ Known \in Refs(t)
AllInstr ==
  LET V == 1 .. Known IN
     {<<"u", o, i>> : o \in Unary, i \in V}
     \cup {<<f, o, i, j>> : f \in {"vv"}, o \in Binary \cup {"powi"}, i \in V, j \in V}
     \cup {<<"avv", o, i, j>> : o \in Infix, i \in V, j \in V}
     \cup {<<"vs", o, i, c>> : o \in Binary, i \in V, c \in Consts}
     \cup {<<"vs", "powi", i, <<c, 1>>>> : i \in V, c \in Ints}
     \cup {<<"avs", o, i, c>> : o \in Infix, i \in V, c \in Consts}
     \cup {<<"sv", o, c, i>> : o \in Binary \cup {"powi"}, i \in V, c \in Consts}
     \cup {<<g, <<i, j, k>>>> : g \in {"sum", "prod"}, i \in {1}, j \in V, k \in V}
RI == RandomElement(1 .. Known)
RandInstr ==
  CASE RandomElement(1 .. 10) \in 1 .. 4 -> <<"u", RandomElement(Unary), RI>>
    [] OTHER -> CASE RandomElement(1 .. 12) \in 1 .. 6 -> <<"vv", RandomElement(Binary), RI, RI>>
                  [] OTHER -> CASE RandomElement(1 .. 6) = 1 -> <<"avv", RandomElement(Infix), RI, RI>>
                       [] OTHER -> CASE RandomElement(1 .. 5) \in {1, 2} -> <<"vs", RandomElement(Binary), RI, RandomElement(Consts)>>
                            [] OTHER -> CASE RandomElement(1 .. 3) = 1 -> <<"sv", RandomElement(Binary), RandomElement(Consts), RI>>
                                 [] OTHER -> CASE RandomElement(1 .. 2) = 1 -> <<"vs", "powi", RI, <<RandomElement(Ints), 1>>>>
                                      [] OTHER -> <<RandomElement({"sum", "prod"}), <<RI, RI, RI, RI>>>>
Init == prog = <<>>
Next == /\ Len(prog) < MaxLen
        /\ IF Mode = "sim" THEN \E t \in {RandInstr} : prog' = Append(prog, t)
           ELSE \E t \in {u \in AllInstr : Must(u)} : prog' = Append(prog, t)
Spec == Init /\ [][Next]_prog
Emit == \/ prog = <<>> \/ (Mode = "sim" /\ Len(prog) < MaxLen)
        \/ LET anyrec == \E i \in DOMAIN prog : Deviates(prog[i]) IN
           PrintT(ToJson([p |-> prog,
             v |-> [i \in DOMAIN prog |-> Val(prog[i])],
             g |-> [i \in DOMAIN prog |-> [n \in 1 .. NIn |-> Chain(Refs(prog[i]), prog[i], n, FALSE)]],
             h |-> IF anyrec THEN [i \in DOMAIN prog |-> [n \in 1 .. NIn |-> Chain(Refs(prog[i]), prog[i], n, TRUE)]] ELSE <<>>]))
=============================================================================
