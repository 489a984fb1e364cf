------------------------------ MODULE Payoffs -------------------------------
(* Contractual payoffs of every option family, as formulas over the values   *)
(* p1 .. pn of a price path.  The path grows one observation per step; the    *)
(* relations between the families are checked exactly on every path of the   *)
(* bounded value set, and the formulas (Emit) are what the conformance driver *)
(* holds against the code: one definition for both.                          *)
EXTENDS Expr, Rat, TLC, Json
CONSTANTS Vals, MaxLen,      \* observed prices and the longest path explored
          SymLens,           \* ... and those emitted with the terms of the contract left open
          Lens,              \* path lengths whose formulas are emitted
          Strikes            \* <<n, d>> rationals

R(a) == IF DOMAIN a = {1} THEN X(a[1])         \* a term of the contract left open: <<"k">>
        ELSE IF a[2] = 1 THEN N(a[1]) ELSE Q(a[1], a[2])
Var(i) == X("p" \o ToString(i))
Path(n) == [i \in 1 .. n |-> Var(i)]
Types == {"call", "put"}

(* ------------------------------------------------------------ formulas *)
RECURSIVE Fold(_, _, _, _)                   \* balanced: op(p[lo], ..., p[hi])
Fold(op(_, _), p, lo, hi) ==
  IF lo = hi THEN p[lo] ELSE LET m == (lo + hi) \div 2 IN op(Fold(op, p, lo, m), Fold(op, p, m + 1, hi))
Plus(a, b) == <<"add", a, b>>
Last(p) == p[Len(p)]
MaxOf(p) == Fold(Max2, p, 1, Len(p))
MinOf(p) == Fold(Min2, p, 1, Len(p))
Arith(p) == Div(Fold(Plus, p, 1, Len(p)), N(Len(p)))
If(a, b, y, n) == <<"if", a, b, y, n>>       \* a < b ? y : n
GeoPos(p) == IF Len(p) = 1 THEN p[1] ELSE Exp(Div(Fold(Plus, [i \in 1 .. Len(p) |-> Ln(p[i])], 1, Len(p)), N(Len(p))))
Geo(p) == If(Zero, MinOf(p), GeoPos(p), Zero) \* one observation of zero makes the geometric average zero
Pos(a) == Max2(a, Zero)
Side(type, a, b) == IF type = "call" THEN Sub(a, b) ELSE Sub(b, a)
PosPow(a, m) == If(Zero, a, Pow(a, m), Zero) \* max(a,0)^m, m > 0

None == <<0, 0>>                             \* absent
Reb(c) == IF c.reb = None THEN Zero ELSE R(c.reb)
Pay(c, p) ==
  LET s == Last(p) IN
  CASE c.f = "vanilla" -> Pos(Side(c.type, s, R(c.k)))
    [] c.f = "binary" -> LET amt == IF c.pays = "cash" THEN R(c.k) ELSE s IN
                         IF c.type = "call" THEN If(R(c.k), s, amt, Zero) ELSE If(s, R(c.k), amt, Zero)
    [] c.f = "asian" -> LET a == IF c.avg = "arith" THEN Arith(p) ELSE Geo(p) IN
                        IF c.strike = "fixed" THEN Pos(Side(c.type, a, R(c.k))) ELSE Pos(Side(c.type, s, a))
    [] c.f = "barrier" ->
         LET v == Pos(Side(c.type, s, R(c.k))) IN
         CASE c.kind = "ui" -> If(MaxOf(p), R(c.b), Reb(c), v)
           [] c.kind = "uo" -> If(MaxOf(p), R(c.b), v, Reb(c))
           [] c.kind = "di" -> If(R(c.b), MinOf(p), Reb(c), v)
           [] OTHER         -> If(R(c.b), MinOf(p), v, Reb(c))
    [] c.f = "lookback" -> IF c.strike = "fixed"
                           THEN Pos(IF c.type = "call" THEN Sub(MaxOf(p), R(c.k)) ELSE Sub(R(c.k), MinOf(p)))
                           ELSE IF c.type = "call" THEN Sub(s, MinOf(p)) ELSE Sub(MaxOf(p), s)
    [] c.f = "powercontract" -> Pow(Div(s, R(c.k)), R(c.m))
    [] c.f = "power" -> Pos(Side(c.type, Pow(s, R(c.m)), R(c.k)))
    [] c.f = "capped" -> Min2(Pos(Side(c.type, Pow(s, R(c.m)), R(c.k))), R(c.cap))
    [] c.f = "powered" -> PosPow(Side(c.type, s, R(c.k)), R(c.m))
    [] c.f = "logmoneyness" -> Ln(Div(s, R(c.k)))
    [] c.f = "logunderlying" -> Ln(s)
    [] c.f = "logoption" -> Pos(Ln(Div(s, R(c.k))))
    [] c.f = "supershare" -> If(s, R(c.k), Zero, If(R(c.k2), s, Zero, Div(s, R(c.k))))

(* ----------------------------------------------------------- contracts *)
Half == <<1, 2>>
PathIndependent ==
  {[f |-> "vanilla", type |-> t, k |-> k] : t \in Types, k \in Strikes}
  \cup {[f |-> "binary", type |-> t, pays |-> y, k |-> k] : t \in Types, y \in {"cash", "asset"}, k \in Strikes}
  \cup {[f |-> "powercontract", k |-> k, m |-> m] : k \in Strikes, m \in {<<2, 1>>, Half, <<-1, 1>>, <<3, 1>>}}
  \cup {[f |-> "power", type |-> t, k |-> k, m |-> m] : t \in Types, k \in Strikes, m \in {<<2, 1>>, Half}}
  \cup {[f |-> "powered", type |-> t, k |-> k, m |-> m] : t \in Types, k \in Strikes, m \in {<<1, 1>>, <<2, 1>>, <<3, 2>>}}
  \cup {[f |-> "capped", type |-> t, k |-> k, m |-> m, cap |-> cap] : t \in Types, k \in Strikes, m \in {<<2, 1>>, Half}, cap \in {Half, <<3, 1>>}}
  \cup {[f |-> g, type |-> t, k |-> k] : g \in {"logmoneyness", "logunderlying", "logoption"}, t \in Types, k \in Strikes}
  \cup {[f |-> "supershare", type |-> t, k |-> k, k2 |-> j] : t \in Types, k \in Strikes, j \in {j \in Strikes : TRUE}}
PathDependent ==
  {[f |-> "asian", type |-> t, avg |-> a, strike |-> "fixed", k |-> k] : t \in Types, a \in {"arith", "geo"}, k \in Strikes}
  \cup {[f |-> "asian", type |-> t, avg |-> a, strike |-> "floating", k |-> k] : t \in Types, a \in {"arith", "geo"}, k \in {None}}
  \cup {[f |-> "barrier", type |-> t, kind |-> z, k |-> k, b |-> b, reb |-> r] :
          t \in Types, z \in {"ui", "uo", "di", "do"}, k \in Strikes, b \in Strikes, r \in {None, Half, <<7, 1>>}}
  \cup {[f |-> "lookback", type |-> t, strike |-> "fixed", k |-> k] : t \in Types, k \in Strikes}
  \cup {[f |-> "lookback", type |-> t, strike |-> z, k |-> None] : t \in Types, z \in {"floating", "unset"}}
Sensible(c) == c.f = "supershare" => ~RLess(c.k2, c.k)
Contracts == {c \in PathIndependent \cup PathDependent : Sensible(c)}
(* The same families with every term of the contract left open *)
K0 == <<"k">>
SymIndependent ==
  {[f |-> "vanilla", type |-> t, k |-> K0] : t \in Types}
  \cup {[f |-> "binary", type |-> t, pays |-> y, k |-> K0] : t \in Types, y \in {"cash", "asset"}}
  \cup {[f |-> "powercontract", k |-> K0, m |-> <<"m">>]}
  \cup {[f |-> g, type |-> t, k |-> K0, m |-> <<"m">>] : g \in {"power", "powered"}, t \in Types}
  \cup {[f |-> "capped", type |-> t, k |-> K0, m |-> <<"m">>, cap |-> <<"cap">>] : t \in Types}
  \cup {[f |-> g, type |-> t, k |-> K0] : g \in {"logmoneyness", "logunderlying", "logoption"}, t \in Types}
  \cup {[f |-> "supershare", type |-> t, k |-> K0, k2 |-> <<"k2">>] : t \in Types}
SymDependent ==
  {[f |-> "asian", type |-> t, avg |-> a, strike |-> "fixed", k |-> K0] : t \in Types, a \in {"arith", "geo"}}
  \cup {[f |-> "asian", type |-> t, avg |-> a, strike |-> "floating", k |-> None] : t \in Types, a \in {"arith", "geo"}}
  \cup {[f |-> "barrier", type |-> t, kind |-> z, k |-> K0, b |-> <<"b">>, reb |-> <<"reb">>] : t \in Types, z \in {"ui", "uo", "di", "do"}}
  \cup {[f |-> "lookback", type |-> t, strike |-> "fixed", k |-> K0] : t \in Types}
  \cup {[f |-> "lookback", type |-> t, strike |-> z, k |-> None] : t \in Types, z \in {"floating", "unset"}}

(* ----------------------------------- exact evaluation on explored paths *)
RECURSIVE IPow(_, _)
IPow(a, n) == IF n = 0 THEN <<1, 1>> ELSE RMul(a, IPow(a, n - 1))
RECURSIVE Exact(_)                           \* no transcendental operation in the formula?
Exact(e) == CASE e[1] \in {"n", "q", "x"} -> TRUE
              [] e[1] = "pow" -> Exact(e[2]) /\ e[3][1] = "n" /\ e[3][2] > 0
              [] e[1] \in {"add", "sub", "mul", "div", "neg", "min", "max", "if"} -> \A i \in 2 .. Len(e) : Exact(e[i])
              [] OTHER -> FALSE
RECURSIVE Ev(_, _)
Ev(e, w) ==                                  \* w: the path
  CASE e[1] = "n" -> <<e[2], 1>>
    [] e[1] = "q" -> Norm(e[2], e[3])
    [] e[1] = "x" -> <<w[CHOOSE i \in 1 .. Len(w) : e = Var(i)], 1>>
    [] e[1] = "neg" -> RNeg(Ev(e[2], w))
    [] e[1] = "add" -> RAdd(Ev(e[2], w), Ev(e[3], w))
    [] e[1] = "sub" -> RSub(Ev(e[2], w), Ev(e[3], w))
    [] e[1] = "mul" -> RMul(Ev(e[2], w), Ev(e[3], w))
    [] e[1] = "div" -> RDiv(Ev(e[2], w), Ev(e[3], w))
    [] e[1] = "pow" -> IPow(Ev(e[2], w), e[3][2])
    [] e[1] = "min" -> LET a == Ev(e[2], w) b == Ev(e[3], w) IN IF RLess(b, a) THEN b ELSE a
    [] e[1] = "max" -> LET a == Ev(e[2], w) b == Ev(e[3], w) IN IF RLess(a, b) THEN b ELSE a
    [] e[1] = "if" -> IF RLess(Ev(e[2], w), Ev(e[3], w)) THEN Ev(e[4], w) ELSE Ev(e[5], w)

VARIABLE path
Init == path = <<>>
Next == Len(path) < MaxLen /\ \E v \in Vals : path' = Append(path, v)
Spec == Init /\ [][Next]_path

Value(c) == Ev(Pay(c, Path(Len(path))), path)
Barriers == {c \in Contracts : c.f = "barrier"}
Leq(a, b) == ~RLess(b, a)
InOut ==                                     \* knock-in + knock-out = vanilla (+ the rebate, paid by exactly one)
  path # <<>> => \A c \in Barriers : c.kind \in {"ui", "di"} =>
    LET o == [c EXCEPT !.kind = IF c.kind = "ui" THEN "uo" ELSE "do"]
        v == [f |-> "vanilla", type |-> c.type, k |-> c.k] IN
    RAdd(Value(c), Value(o)) = RAdd(Value(v), IF c.reb = None THEN R0 ELSE c.reb)
NonNegative == path # <<>> => \A c \in Contracts : Exact(Pay(c, Path(Len(path)))) => Leq(R0, Value(c))
LastOnly ==                                  \* European contracts see the final observation only
  path # <<>> => \A c \in PathIndependent : Pay(c, Path(Len(path))) = Pay(c, <<Var(Len(path))>>)
Parity == path # <<>> => \A k \in Strikes :
    /\ RSub(Value([f |-> "vanilla", type |-> "call", k |-> k]), Value([f |-> "vanilla", type |-> "put", k |-> k]))
         = RSub(<<path[Len(path)], 1>>, k)
    /\ RSub(Value([f |-> "asian", type |-> "call", avg |-> "arith", strike |-> "fixed", k |-> k]),
            Value([f |-> "asian", type |-> "put", avg |-> "arith", strike |-> "fixed", k |-> k]))
         = RSub(Ev(Arith(Path(Len(path))), path), k)
Dominance == path # <<>> => \A t \in Types, k \in Strikes :     \* hindsight is worth at least the outcome
    LET look == [f |-> "lookback", type |-> t, strike |-> "fixed", k |-> k] IN
    /\ Leq(Value([f |-> "vanilla", type |-> t, k |-> k]), Value(look))
    /\ Leq(Value([f |-> "asian", type |-> t, avg |-> "arith", strike |-> "fixed", k |-> k]), Value(look))

(* ------------------------------------------------------------- emission *)
Emit == path = <<>> =>
  \A c \in Contracts : \A n \in (IF c \in PathIndependent THEN {1} ELSE Lens) :
      PrintT(ToJson([c |-> c, n |-> n, pay |-> Pay(c, Path(n))]))
EmitSym == path = <<>> =>
  /\ \A c \in SymIndependent : PrintT(ToJson([sym |-> c, n |-> 1, pay |-> Pay(c, Path(1))]))
  /\ \A c \in SymDependent : \A n \in SymLens : PrintT(ToJson([sym |-> c, n |-> n, pay |-> Pay(c, Path(n))]))
=============================================================================
