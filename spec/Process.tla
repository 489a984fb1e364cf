------------------------------ MODULE Process -------------------------------
(* Simulation of stochastic processes.                                        *)
(*                                                                            *)
(* Part 1, a state machine: workers generate the paths of a run under every    *)
(* interleaving.  Each path draws its own noise stream, so what a path         *)
(* consumes -- and with it the path -- depends on nothing but its index.       *)
(*                                                                            *)
(* Part 2, formulas: drift and diffusion of every process (parameters are      *)
(* functions of time, here quadratics) and one step of every scheme, emitted   *)
(* as formulas for the conformance driver.                                     *)
EXTENDS Expr, TLC, Json
CONSTANTS M, Steps, Workers, Shared    \* Shared: one stream for all paths (a fault, for the negative run)

VARIABLES owner,     \* path -> worker or 0
          out,       \* path -> sequence of <<stream, draw>> consumed
          drawn      \* stream -> draws taken so far
vars == <<owner, out, drawn>>
Paths == 1 .. M
Stream(i) == IF Shared THEN 1 ELSE i
Init == owner = [i \in Paths |-> 0] /\ out = [i \in Paths |-> <<>>] /\ drawn = [s \in Paths |-> 0]
Busy(w) == \E i \in Paths : owner[i] = w /\ Len(out[i]) < Steps
Claim(w, i) == owner[i] = 0 /\ ~Busy(w) /\ owner' = [owner EXCEPT ![i] = w] /\ UNCHANGED <<out, drawn>>
Step(w, i) == /\ owner[i] = w /\ Len(out[i]) < Steps
              /\ drawn' = [drawn EXCEPT ![Stream(i)] = @ + 1]
              /\ out' = [out EXCEPT ![i] = Append(@, <<Stream(i), drawn[Stream(i)] + 1>>)]
              /\ UNCHANGED owner
Next == \E w \in Workers, i \in Paths : Claim(w, i) \/ Step(w, i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == \A i \in Paths : Len(out[i]) = Steps
ScheduleFree == \A i \in Paths : \A t \in 1 .. Len(out[i]) : out[i][t] = <<i, t>>
Fresh == \A i, j \in Paths : \A s \in 1 .. Len(out[i]), t \in 1 .. Len(out[j]) :
           out[i][s] = out[j][t] => i = j /\ s = t
Finishes == <>Done
EmitPlan == Done => PrintT(ToJson([plan |-> out]))

(* ------------------------------------------------------------- formulas *)
P(i, t) == LET c(j) == X("c" \o ToString(i) \o ToString(j)) IN
           <<"add", c(0), <<"mul", t, <<"add", c(1), <<"mul", t, c(2)>>>>>>>>
E(i) == X("e" \o ToString(i))                \* a plain number among the arguments

(* name, number of arguments, arguments that are functions of time *)
Procs == {
  [p |-> "bm", n |-> 0, f |-> 0], [p |-> "abm", n |-> 2, f |-> 2], [p |-> "gbm", n |-> 2, f |-> 2],
  [p |-> "ou", n |-> 3, f |-> 3], [p |-> "cir", n |-> 3, f |-> 3], [p |-> "cev", n |-> 3, f |-> 3],
  [p |-> "ev", n |-> 3, f |-> 3], [p |-> "hw", n |-> 3, f |-> 3], [p |-> "hl", n |-> 2, f |-> 2],
  [p |-> "bdt", n |-> 2, f |-> 2], [p |-> "gbb", n |-> 4, f |-> 2], [p |-> "mjd", n |-> 5, f |-> 3],
  [p |-> "fbm", n |-> 2, f |-> 0], [p |-> "fou", n |-> 5, f |-> 3], [p |-> "fcir", n |-> 5, f |-> 3] }

Drift(p, x, t) ==
  CASE p \in {"bm", "fbm"} -> Zero
    [] p \in {"abm"} -> P(0, t)
    [] p \in {"gbm", "cev", "mjd"} -> Mul(P(0, t), x)
    [] p \in {"ou", "cir", "fou", "fcir"} -> Mul(P(2, t), Sub(P(0, t), x))     \* theta (mu - x)
    [] p \in {"ev", "hw"} -> Sub(P(2, t), Mul(P(0, t), x))                     \* theta - alpha x
    [] p = "hl" -> P(1, t)
    [] p = "bdt" -> Add(P(1, t), Mul(Div(<<"add", X("c01"), <<"mul", N(2), <<"mul", X("c02"), t>>>>>>, P(0, t)), x))   \* theta + sigma'/sigma x
    [] p = "gbb" -> Add(Mul(P(0, t), x), Mul(Div(Sub(Ln(E(2)), Ln(x)), Sub(E(3), t)), x))
Diffusion(p, x, t) ==
  CASE p \in {"bm", "fbm"} -> One
    [] p \in {"abm", "ou", "ev", "hw", "fou"} -> P(1, t)
    [] p \in {"gbm", "gbb", "mjd"} -> Mul(P(1, t), x)
    [] p \in {"cir", "fcir"} -> Mul(P(1, t), Sqrt(x))
    [] p = "cev" -> Mul(P(1, t), Pow(x, P(2, t)))
    [] p \in {"hl", "bdt"} -> P(0, t)
(* What a process refuses: these must not be negative where they are asked for. *)
DriftGuards(p, t) == IF p = "hl" THEN <<P(1, t)>> ELSE <<>>
DiffusionGuards(p, t) ==
  CASE p \in {"abm", "gbm", "ou", "cir", "mjd", "gbb", "fou"} -> <<P(1, t)>>   \* volatility
    [] p = "cev" -> <<P(1, t), P(2, t), Sub(One, P(2, t))>>                    \* volatility, elasticity in [0, 1]
    [] p = "hl" -> <<P(0, t)>>
    [] OTHER -> <<>>
NewGuards(p) ==                              \* Hurst exponents in [0, 1]
  CASE p = "fbm" -> <<E(0), Sub(One, E(0))>>
    [] p \in {"fou", "fcir"} -> <<E(3), Sub(One, E(3))>>
    [] OTHER -> <<>>
HorizonGuard == Sub(X("tn"), X("t0"))        \* must be positive
Params(r) ==                                 \* what parameters() reports: the values at time zero
  IF r.p = "fbm" THEN <<E(0)>> ELSE
  [i \in 1 .. (CASE r.p = "mjd" -> 3 [] r.p \in {"fou", "fcir"} -> 4 [] OTHER -> r.n) |->
    IF i <= r.f THEN X("c" \o ToString(i - 1) \o "0") ELSE E(i - 1)]

x == X("x")
t == X("t")
dt == X("dt")
dw == X("dw")                                \* the noise increment of the step
Half(e) == Div(e, Two)
OneStep(scheme, a, b(_, _), bx) ==
  CASE scheme = "euler" -> Add3(x, Mul(a, dt), Mul(b(x, t), dw))
    [] scheme = "milstein" -> Add(Add3(x, Mul(a, dt), Mul(b(x, t), dw)),
                                  Half(Mul3(b(x, t), bx, Sub(Sq(dw), dt))))
    [] scheme = "strang" -> Add3(x, Mul(a, dt), Mul(b(Add(x, Half(Mul(a, dt))), Add(t, Half(dt))), dw))
EmitFormulas ==
  \A r \in Procs : \A sc \in {"euler", "milstein", "strang"} :
    LET b(y, s) == Diffusion(r.p, y, s) IN
    PrintT(ToJson([p |-> r.p, n |-> r.n, f |-> r.f, scheme |-> sc, a |-> Drift(r.p, x, t), b |-> Diffusion(r.p, x, t),
                   params |-> Params(r), ga |-> DriftGuards(r.p, t), gb |-> DiffusionGuards(r.p, t), gnew |-> NewGuards(r.p), gt |-> HorizonGuard, step |-> OneStep(sc, Drift(r.p, x, t), b, D(Diffusion(r.p, x, t), x))]))
Emit == (\A i \in Paths : owner[i] = 0 /\ out[i] = <<>>) => EmitFormulas
=============================================================================
