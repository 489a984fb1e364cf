-------------------------------- MODULE LOB --------------------------------
(* The limit order book as a state machine.  The abstract state is the      *)
(* sequence of resting orders in order of arrival; price levels, queues and *)
(* the id index of the implementation are all derived from it.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Ids, Prices, Sizes, Markets, Stamps,
          MaxRest,    \* bound on resting orders (exhaustive runs)
          MaxHist,    \* history length at which a simulated behaviour is emitted
          EmitAll     \* emit every transition (exhaustive) or complete behaviours

VARIABLES book,       \* Seq of [id, buy, rem, px], arrival order
          last,       \* what the last step did: conservation is stated on it
          hist        \* calls so far with the answer the specification demands

vars == <<book, last, hist>>

RECURSIVE SumRem(_)
SumRem(s) == IF s = <<>> THEN 0 ELSE s[1].rem + SumRem(Tail(s))
LiveIds(bk) == {bk[i].id : i \in DOMAIN bk}
Side(bk, buy) == SelectSeq(bk, LAMBDA o : o.buy = buy)
Px(s) == {s[i].px : i \in DOMAIN s}
Best(ps, buy) == IF buy THEN CHOOSE p \in ps : \A q \in ps : p <= q     \* a buyer lifts the lowest ask
                        ELSE CHOOSE p \in ps : \A q \in ps : p >= q     \* a seller hits the highest bid
Level(bk, buy, p) == SelectSeq(bk, LAMBDA o : o.buy = buy /\ o.px = p)
Min(a, b) == IF a < b THEN a ELSE b
Without(bk, id) == SelectSeq(bk, LAMBDA o : o.id # id)
Reduce(bk, id, q) == [i \in DOMAIN bk |-> IF bk[i].id = id THEN [bk[i] EXCEPT !.rem = @ - q] ELSE bk[i]]
AddFill(fills, p, q) == IF fills # <<>> /\ fills[Len(fills)][1] = p
                        THEN [fills EXCEPT ![Len(fills)] = <<p, @[2] + q>>]
                        ELSE Append(fills, <<p, q>>)

(* One share-taking step at a time: the oldest order of the best opposite price gives    *)
(* as much as it can.  Returns [bk, left, fills].                                       *)
RECURSIVE Exec(_, _, _, _)
Exec(bk, n, buy, fills) ==
  LET opp == Side(bk, ~buy) IN
  IF n = 0 \/ opp = <<>> THEN [bk |-> bk, left |-> n, fills |-> fills]
  ELSE LET p == Best(Px(opp), buy)
           o == Level(bk, ~buy, p)[1]
           q == Min(n, o.rem)
       IN Exec(IF q = o.rem THEN Without(bk, o.id) ELSE Reduce(bk, o.id, q),
               n - q, buy, AddFill(fills, p, q))

----------------------------------------------------------------------------
Drain(bk) == [live |-> LiveIds(bk),
              asks |-> Exec(bk, 1000000, TRUE, <<>>).fills,
              bids |-> Exec(bk, 1000000, FALSE, <<>>).fills]

Emit == IF EmitAll THEN PrintT(ToJson([h |-> hist', d |-> Drain(book')]))
        ELSE Len(hist') = MaxHist => PrintT(ToJson([h |-> hist', d |-> Drain(book')]))

Step(call, ans) == /\ Len(hist) < MaxHist
                   /\ hist' = Append(hist, [c |-> call, a |-> ans])
                   /\ Emit

Add(id, buy, n, p, ts) ==
  /\ Len(book) < MaxRest
  /\ LET ok == id \notin LiveIds(book) IN
     /\ book' = IF ok THEN Append(book, [id |-> id, buy |-> buy, rem |-> n, px |-> p]) ELSE book
     /\ last' = [kind |-> "add", qty |-> IF ok THEN n ELSE 0]
     /\ Step(<<"add", id, buy, n, p, ts>>, ok)

Cancel(id) ==
  LET ok == id \in LiveIds(book) IN
  /\ book' = Without(book, id)
  /\ last' = [kind |-> "can", qty |-> SumRem(book) - SumRem(book')]
  /\ Step(<<"can", id>>, ok)

Market(n, buy) ==
  LET r == Exec(book, n, buy, <<>>) IN
  /\ book' = r.bk
  /\ last' = [kind |-> "mkt", qty |-> n - r.left]
  /\ Step(<<"mkt", n, buy>>, <<r.left = 0, r.fills>>)

Init == book = <<>> /\ last = [kind |-> "init", qty |-> 0] /\ hist = <<>>
Next == \/ \E id \in Ids, buy \in BOOLEAN, n \in Sizes, p \in Prices, ts \in Stamps : Add(id, buy, n, p, ts)
        \/ \E id \in Ids : Cancel(id)
        \/ \E n \in Markets, buy \in BOOLEAN : Market(n, buy)
Spec == Init /\ [][Next]_vars

(* Simulation: TLC picks uniformly among successor states, and additions dominate them; the *)
(* kind of call is therefore drawn first.                                                   *)
R(S) == RandomElement(S)
SimNext ==
  LET k == R(1..9) IN
  IF k <= 5 THEN LET i == R(Ids) s == R(BOOLEAN) z == R(Sizes) x == R(Prices) t == R(Stamps)
                 IN Add(i, s, z, x, t)
  ELSE IF k <= 7 THEN LET live == LiveIds(book) i == IF live # {} /\ R(1..4) # 1 THEN R(live) ELSE R(Ids)
                      IN Cancel(i)
  ELSE LET z == R(Markets) s == R(BOOLEAN) IN Market(z, s)
SimSpec == Init /\ [][SimNext]_vars
View == book

----------------------------------------------------------------------------
(* Properties of the specification itself.                                  *)
TypeOK == \A i \in DOMAIN book : book[i].rem > 0 /\ book[i].id \in Ids
IdsUnique == \A i, j \in DOMAIN book : book[i].id = book[j].id => i = j

(* Declarative matching rule: the quantity taken at price p is what is left of n after all *)
(* better prices, capped by the level.  Checked against the operational Exec.             *)
LevelQty(bk, buy, p) == SumRem(Level(bk, buy, p))
RECURSIVE BetterQty(_, _, _, _)
BetterQty(bk, buy, p, ps) ==
  IF ps = {} THEN 0
  ELSE LET x == CHOOSE x \in ps : TRUE
       IN (IF (IF buy THEN x < p ELSE x > p) THEN LevelQty(bk, ~buy, x) ELSE 0)
          + BetterQty(bk, buy, p, ps \ {x})
Taken(bk, n, buy, p) ==
  LET avail == n - BetterQty(bk, buy, p, Px(Side(bk, ~buy)))
  IN IF avail <= 0 THEN 0 ELSE Min(avail, LevelQty(bk, ~buy, p))
MatchRule ==
  \A n \in Markets, buy \in BOOLEAN :
    LET r == Exec(book, n, buy, <<>>) f == r.fills IN
    /\ \A p \in Px(Side(book, ~buy)) :
         LET t == Taken(book, n, buy, p)
             got == {i \in DOMAIN f : f[i][1] = p}
         IN IF t = 0 THEN got = {} ELSE \E i \in got : got = {i} /\ f[i][2] = t
    /\ \A i \in 1..(Len(f) - 1) : IF buy THEN f[i][1] < f[i+1][1] ELSE f[i][1] > f[i+1][1]
    /\ (r.left = 0) = (SumRem(Side(book, ~buy)) >= n)
    /\ Side(r.bk, buy) = Side(book, buy)
    \* FIFO: within a level the survivors are a suffix, only its first order reduced
    /\ \A p \in Px(Side(book, ~buy)) :
         LET a == Level(book, ~buy, p) b == Level(r.bk, ~buy, p) k == Len(a) - Len(b)
         IN \A i \in DOMAIN b : b[i].id = a[i + k].id /\ (i > 1 => b[i].rem = a[i + k].rem)

Conserve == [][ SumRem(book') = CASE last'.kind = "add" -> SumRem(book) + last'.qty
                                  [] OTHER -> SumRem(book) - last'.qty ]_vars
=============================================================================
