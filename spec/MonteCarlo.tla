----------------------------- MODULE MonteCarlo -----------------------------
(* The Monte Carlo estimator over the contracts of Payoffs: a run generates   *)
(* paths one after another (by any process) and the price is the discount     *)
(* factor over the configured horizon times the mean payoff of all of them.   *)
(* The laws an estimator of that form obeys are checked exactly on every run  *)
(* of the bounded value set; the formula itself is what the conformance       *)
(* driver holds against the code.                                             *)
EXTENDS Payoffs
CONSTANTS PathLen, MaxPaths, Counts          \* explored runs; path counts whose price formula is emitted

VARIABLE run                                 \* the paths generated so far
vars2 == <<run, path>>
InitMC == run = <<>> /\ path = <<>>
NextMC == /\ UNCHANGED path
          /\ Len(run) < MaxPaths
          /\ \E p \in [1 .. PathLen -> Vals] : run' = Append(run, p)
SpecMC == InitMC /\ [][NextMC]_vars2

V(i) == X("v" \o ToString(i))
Discount == Exp(Sub(Zero, Mul(X("r"), Sub(X("tn"), X("t0")))))
Price(m) == Mul(Discount, Div(Fold(Plus, [i \in 1 .. m |-> V(i)], 1, m), N(m)))

(* r = 0: the price itself, exactly *)
On(c, p) == Ev(Pay(c, Path(Len(p))), p)
RECURSIVE Sum(_, _)
Sum(c, s) == IF s = <<>> THEN R0 ELSE RAdd(On(c, Head(s)), Sum(c, Tail(s)))
Mean(c, s) == RDiv(Sum(c, s), <<Len(s), 1>>)
Watched == {c \in Contracts : c.f \in {"vanilla", "barrier", "lookback", "supershare"} /\ c.k \in {None, <<2, 1>>}}

Rev(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
OrderFree == run # <<>> => \A c \in Watched : Mean(c, run) = Mean(c, Rev(run))
Batches ==                                   \* the mean of a run is the weighted mean of its two parts
  \A i \in 1 .. Len(run) - 1 : \A c \in Watched :
    LET a == SubSeq(run, 1, i) b == SubSeq(run, i + 1, Len(run)) IN
    Mean(c, run) = RDiv(RAdd(RMul(Mean(c, a), <<i, 1>>), RMul(Mean(c, b), <<Len(run) - i, 1>>)), <<Len(run), 1>>)
InOutMC == run # <<>> => \A c \in Watched : (c.f = "barrier" /\ c.kind \in {"ui", "di"}) =>
    LET o == [c EXCEPT !.kind = IF c.kind = "ui" THEN "uo" ELSE "do"]
        v == [f |-> "vanilla", type |-> c.type, k |-> c.k] IN
    RAdd(Mean(c, run), Mean(o, run)) = RAdd(Mean(v, run), IF c.reb = None THEN R0 ELSE c.reb)
ParityMC == run # <<>> => RSub(Mean([f |-> "vanilla", type |-> "call", k |-> <<2, 1>>], run),
                               Mean([f |-> "vanilla", type |-> "put", k |-> <<2, 1>>], run))
              = RSub(RDiv(<<LET RECURSIVE T(_) T(s) == IF s = <<>> THEN 0 ELSE Head(s)[PathLen] + T(Tail(s)) IN T(run), 1>>, <<Len(run), 1>>), <<2, 1>>)

EmitMC == run = <<>> =>
  /\ \A m \in Counts : PrintT(ToJson([m |-> m, price |-> Price(m)]))
  /\ \A c \in {c \in Contracts : c.f # "lookback"} : \A n \in (IF c \in PathIndependent THEN {1} ELSE Lens) :
      PrintT(ToJson([c |-> c, n |-> n, pay |-> Pay(c, Path(n))]))
=============================================================================
