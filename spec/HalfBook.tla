------------------------------ MODULE HalfBook ------------------------------
(* The plain order book: two queues in order of arrival.  Orders carry their *)
(* identity and terms unchanged; books that were cloned go their own way.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Types, Forces, Fills, Prices, Ids, Times, Sim
VARIABLES hist, books, n           \* books: the book and, once cloned, its copy
vars == <<hist, books, n>>
Empty == [bids |-> <<>>, asks |-> <<>>]
Sides == {"bid", "ask"}
(* What an order may carry: how far it has been executed, prices of every kind, an id or a time   *)
(* that another order already has, or a time earlier than the order before it.  The book looks at *)
(* the side only.                                                                                 *)
TermSet == [side : Sides, type : Types, tif : Forces, fill : Fills, price : Prices, stop : Prices, id : Ids, ts : Times]
AnyTerm == [side |-> RandomElement(Sides), type |-> RandomElement(Types), tif |-> RandomElement(Forces), fill |-> RandomElement(Fills),
            price |-> RandomElement(Prices), stop |-> RandomElement(Prices), id |-> RandomElement(Ids), ts |-> RandomElement(Times)]
Side(t) == t.side
See(b) == [bids |-> b.bids, asks |-> b.asks, len |-> Len(b.bids) + Len(b.asks), empty |-> b = Empty]
Log(e, bs) == hist' = Append(hist, [e |-> e, see |-> [i \in DOMAIN bs |-> See(bs[i])]])
(* An order prints its terms in this order.                                                       *)
Fields == <<"id", "symbol_id", "order_type", "order_side", "price", "stop_price", "quantity", "executed_quantity", "leaves_quantity", "time_in_force", "timestamp">>
Insert(i, t) ==
  LET b == books[i]
      o == [id |-> n, term |-> t]
      c == IF Side(t) = "bid" THEN [b EXCEPT !.bids = Append(@, o)] ELSE [b EXCEPT !.asks = Append(@, o)]
      bs == [books EXCEPT ![i] = c]
  IN books' = bs /\ n' = n + 1 /\ Log(<<"insert", i, n, t>>, bs)
Clone == /\ Len(books) < 2
         /\ LET bs == Append(books, books[1]) IN books' = bs /\ n' = n /\ Log(<<"clone">>, bs)
Init == hist = <<>> /\ books = <<Empty>> /\ n = 1
Next == /\ Len(hist) < MaxLen
        /\ IF Sim THEN (IF RandomElement(1 .. 6) = 1 /\ Len(books) = 1 THEN Clone ELSE Insert(RandomElement(DOMAIN books), AnyTerm))
           ELSE Clone \/ \E i \in DOMAIN books, t \in TermSet : Insert(i, t)
Spec == Init /\ [][Next]_vars
(* no order is lost, duplicated or moved; arrival order is kept on either side *)
Increasing(q) == \A i, j \in DOMAIN q : i < j => q[i].id < q[j].id
Kept == \A i \in DOMAIN books : /\ Increasing(books[i].bids) /\ Increasing(books[i].asks)
                                /\ \A j \in DOMAIN books[i].bids : Side(books[i].bids[j].term) = "bid"
                                /\ \A j \in DOMAIN books[i].asks : Side(books[i].asks[j].term) = "ask"
Conserved == Len(books) = 1 => Len(books[1].bids) + Len(books[1].asks) = n - 1
Emit == Len(hist) < MaxLen \/ PrintT(ToJson(<<Fields, hist>>))
=============================================================================
