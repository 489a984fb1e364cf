// Limit order book: replays a history of add / cancel / market calls on the real Book.
// case:   {"ops":[["add",id,buy,shares,price,ts]|["can",id]|["mkt",shares,buy], ...]}
// answer: {"res":[bool | [filled,[[price,shares]..]] | {"panic":..}, ...]}
#[path = "../common.rs"]
mod common;
use common::*;
use serde_json::{json, Value};
use RustQuant_trading::{limit_order_book::Book, order::Order, order_book::OrderBook, order_lifespan::OrderTimeInForce, order_side::OrderSide, order_type::OrderType};

fn order(v: &Value) -> Order {
    Order {
        id: u(&v["id"]), symbol_id: u(&v["sym"]) as u32,
        order_type: match s(&v["type"]) { "MARKET" => OrderType::Market, "LIMIT" => OrderType::Limit, "STOP" => OrderType::Stop, "STOP_LIMIT" => OrderType::StopLimit,
            "TRAILING_STOP" => OrderType::TrailingStop, "TRAILING_STOP_LIMIT" => OrderType::TrailingStopLimit, o => panic!("harness: {o}") },
        order_side: if s(&v["side"]).starts_with("BID") { OrderSide::BID } else { OrderSide::ASK },
        price: f(&v["price"]), stop_price: f(&v["stop"]), quantity: u(&v["qty"]), executed_quantity: u(&v["exec"]), leaves_quantity: u(&v["leaves"]),
        time_in_force: match s(&v["tif"]) { "GTC" => OrderTimeInForce::GoodTillCancelled, "IOC" => OrderTimeInForce::ImmediateOrCancel, "FOK" => OrderTimeInForce::FillOrKill,
            "AON" => OrderTimeInForce::AllOrNone, o => panic!("harness: {o}") },
        timestamp: time::OffsetDateTime::from_unix_timestamp(i(&v["ts"])).unwrap(),
    }
}
fn terms(o: &Order) -> Value {
    json!({"id": o.id(), "sym": o.symbol_id(), "type": o.order_type().to_string(), "side": (!!*o.order_side()).to_string(), "price": o.price(), "stop": o.stop_price(),
        "qty": o.quantity(), "exec": o.executed_quantity(), "leaves": o.leaves_quantity(), "tif": o.time_in_force().to_string(), "ts": o.timestamp().unix_timestamp(), "text": [o.to_string(), o.timestamp().to_string()]})
}
/// The plain order book: insertions and clones, and every book after every event.
fn half(case: &Value) -> Value {
    let mut books = vec![OrderBook::new()];
    let see = case["ops"].as_array().unwrap().iter().map(|op| {
        match s(&op[0]) {
            "insert" => books[u(&op[1]) as usize - 1].insert_order(order(&op[2])),
            "clone" => { let b = books[0].clone(); books.push(b) }
            o => panic!("harness: {o}"),
        }
        books.iter().map(|b| json!({"bids": b.bids.iter().map(terms).collect::<Vec<_>>(), "asks": b.asks.iter().map(terms).collect::<Vec<_>>(), "len": b.len(), "empty": b.is_empty()})).collect::<Vec<_>>()
    }).collect::<Vec<_>>();
    json!({ "see": see })
}

fn main() {
    serve(|case| {
        if case["k"] == json!("half") {
            return guard(|| half(case)).unwrap_or_else(panicked);
        }
        let mut book = Book::new();
        let mut res: Vec<Value> = vec![];
        for op in case["ops"].as_array().unwrap() {
            let r = guard(|| match s(&op[0]) {
                "add" => {
                    let r = book.add_order(u(&op[1]), b(&op[2]), u(&op[3]), u(&op[4]), u(&op[5]));
                    json!(r.is_ok())
                }
                "can" => json!(book.cancel_order(u(&op[1])).is_ok()),
                "mkt" => {
                    let (done, fills) = book.execute_market_order(u(&op[1]), b(&op[2]));
                    json!([done, fills])
                }
                o => panic!("harness: unknown op {o}"),
            });
            match r {
                Ok(v) => res.push(v),
                Err(m) => {
                    res.push(panicked(m));
                    break;
                }
            }
        }
        json!({ "res": res })
    });
}
