// Money and exchange (C10), ISO tables (C11), cash flows, legs and quotes (C12), portfolios (C13).
#[path = "../common.rs"]
mod common;
use common::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use time::{Date, Duration, Month};
use RustQuant_cashflows::*;
use RustQuant_instruments::fx::*;
use RustQuant_iso::*;
use RustQuant_portfolios::*;

macro_rules! table {
    ($($c:ident)*) => { vec![$((stringify!($c), $c)),*] };
}
fn currencies() -> Vec<(&'static str, Currency)> {
    table!(USD EUR GBP JPY CHF AUD CAD NZD SEK NOK AED AFN ALL AMD ANG AOA ARS AWG AZN BAM BBD BDT BGN BHD BIF BMD BND BOB BRL
        BSD BTN BWP BYN BZD CDF CLP COP CRC CUC CUP CVE CZK DJF DKK DOP DZD EGP ERN ETB FJD FKP GEL GHS GIP GMD GNF GTQ GYD
        HKD HNL HRK HTG HUF IDR ILS INR IQD IRR ISK JMD JOD KES KGS KHR KMF KPW KRW KWD KYD KZT LAK LBP LKR LRD LSL LYD MAD
        MDL MGA MKD MMK MNT MOP MRO MUR MVR MWK MXN MYR MZN NAD NGN NIO NPR OMR PAB PEN PGK PHP PKR PLN PYG QAR RON RSD CNY
        RUB RWF SAR SBD SCR SDG SGD SHP SLE SLL SOS SRD SSP STN SVC SYP SZL THB TJS TMT TND TOP TRY TTD TWD TZS UAH UGX UYU
        UZS VES VND VUV WST XAF XCD XOF XPF YER ZAR ZMW ZWL)
}
fn q(v: &Value) -> f64 {
    f(v)
}

fn money(r: Result<Money, String>, cs: &[Currency]) -> Value {
    match r {
        Ok(m) => json!({"ok": true, "cur": cs.iter().position(|c| *c == m.currency()).map_or(0, |p| p + 1), "amt": jf(m.amount()),
                        "field": cs.iter().position(|c| *c == m.currency).map_or(0, |p| p + 1), "famt": jf(m.amount)}),
        Err(_) => json!({"ok": false}),
    }
}
fn fx(c: &Value) -> Value {
    let all = currencies();
    // beyond the constants: currencies of a user's own, alike in all but one half of their code
    let own = |k: usize| {
        let (a, n) = [("QQA", "901"), ("QQA", "902"), ("QQB", "901"), ("QQB", "902")][k % 4];
        Currency::new("Own", "o", ISO_4217::new(a, n), 100, 2)
    };
    let cs: Vec<Currency> = c["cur"].as_array().unwrap().iter().map(|k| u(k) as usize).map(|k| if k < all.len() { all[k].1 } else { own(k) }).collect();
    let cur = |v: &Value| cs[u(v) as usize - 1];
    let mut ex = Exchange::new();
    let mut out = vec![];
    for e in c["h"].as_array().unwrap() {
        let a = e.as_array().unwrap();
        let mon = |x: usize| Money::new(cur(&a[x]), q(&a[x + 1]));
        out.push(match s(&a[0]) {
            "add" => {
                ex.add_rate(ExchangeRate::new(cur(&a[1]), cur(&a[2]), q(&a[3])));
                json!({"n": ex.rates.len()})
            }
            "get" => match guard(|| ex.get_rate(&cur(&a[1]), &cur(&a[2])).copied()) {
                Ok(None) => json!({"r": null}),
                Ok(Some(r)) => json!({"r": jf(r.rate), "f": r.from_currency == cur(&a[1]), "t": r.to_currency == cur(&a[2])}),
                Err(m) => panicked(m),
            },
            "convert" => money(guard(|| ex.convert(Money::new(cur(&a[1]), q(&a[2])), cur(&a[3]))), &cs),
            "direct" => {
                let r = ExchangeRate::new(cur(&a[1]), cur(&a[2]), q(&a[3]));
                money(guard(|| r.convert(Money::new(cur(&a[4]), q(&a[5])))), &cs)
            }
            "arith" => {
                let (x, y) = (mon(2), mon(4));
                money(
                    guard(|| match s(&a[1]) {
                        "add" => x + y,
                        "sub" => x - y,
                        "mul" => x * y,
                        "div" => x / y,
                        o => panic!("harness: {o}"),
                    }),
                    &cs,
                )
            }
            "cmp" => {
                let (x, y) = (mon(1), mon(3));
                json!({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y,
                    "ord": match x.partial_cmp(&y) { None => "none", Some(o) => match o {
                        std::cmp::Ordering::Less => "lt", std::cmp::Ordering::Equal => "eq", std::cmp::Ordering::Greater => "gt" } }})
            }
            o => panic!("harness: fx {o}"),
        });
    }
    Value::Array(out)
}

fn iso(c: &Value) -> Value {
    match s(&c["t"]) {
        "currencies" => Value::Array(
            currencies()
                .iter()
                .map(|(n, c)| json!([n, c.code().alphabetic(), c.code().numeric(), c.minor(), c.fractions(), c.code.alphabetic, c.code.numeric, c.minor, c.fractions]))
                .collect(),
        ),
        "alpha2" => Value::Array(
            c["q"].as_array().unwrap().iter()
                .map(|x| match guard(|| ISO_3166::from_alpha_2(s(x))) {
                    Ok(Some(r)) => json!([r.alpha_2(), r.alpha_3(), r.numeric()]),
                    Ok(None) => json!([]),
                    Err(m) => panicked(m),
                })
                .collect(),
        ),
        o => panic!("harness: iso {o}"),
    }
}

fn base() -> Date {
    Date::from_calendar_date(2024, Month::February, 27).unwrap()
}
fn dt(v: &Value) -> Date {
    base() + Duration::days(i(v))
}
fn off(d: Date) -> i64 {
    (d - base()).whole_days()
}
fn cf(c: &Cashflow) -> Value {
    json!([jf(c.amount()), off(c.date()), jf(c.amount), off(c.date)])
}
fn oq(v: &Value) -> Option<f64> {
    v.as_array().unwrap().first().map(q)
}
fn jo(v: Option<f64>) -> Value {
    v.map_or(json!([]), |x| json!([jf(x)]))
}
fn cash(c: &Value) -> Value {
    let mut fl: Vec<Cashflow> = vec![];
    let mut leg = Leg::default();
    let mut qt = SimpleQuote::new(None);
    let mut out = vec![];
    for e in c["h"].as_array().unwrap() {
        let a = e.as_array().unwrap();
        let k = |v: &Value| u(v) as usize - 1;
        let mut fresh: Option<Result<Cashflow, String>> = None;
        let mut x = json!({});
        match s(&a[0]) {
            "new" => fresh = Some(Ok(Cashflow::new(q(&a[1]), dt(&a[2])))),
            "two" => {
                let (l, r) = (fl[k(&a[2])], fl[k(&a[3])]);
                fresh = Some(guard(|| match s(&a[1]) {
                    "add" => l + r,
                    "sub" => l - r,
                    "addas" => {
                        let mut l = l;
                        l += r;
                        l
                    }
                    "subas" => {
                        let mut l = l;
                        l -= r;
                        l
                    }
                    o => panic!("harness: {o}"),
                }));
            }
            "one" => {
                let l = fl[k(&a[2])];
                let z = q(&a[3]);
                fresh = Some(guard(|| {
                    let mut m = l;
                    match s(&a[1]) {
                        "mul" => l * z,
                        "div" => l / z,
                        "mulas" => {
                            m *= z;
                            m
                        }
                        "divas" => {
                            m /= z;
                            m
                        }
                        "neg" => -l,
                        "negref" => -&l,
                        "negmut" => -&mut m,
                        o => panic!("harness: {o}"),
                    }
                }));
            }
            "npv" => x = json!({"v": guard_f(|| fl[k(&a[1])].npv(q(&a[2])))}),
            "legnew" => leg = Leg::new(a[1].as_array().unwrap().iter().map(|v| fl[k(v)]).collect()),
            "legadd" => leg.add_cashflow(fl[k(&a[1])]),
            "legask" => {
                x = json!({"n": leg.size(), "f": leg.cashflows().iter().map(cf).collect::<Vec<_>>(), "npv": guard_f(|| leg.npv(q(&a[1]))),
                    "start": leg.start_date().map(off), "end": leg.end_date().map(off),
                    "act": a[2].as_array().unwrap().iter().map(|d| leg.is_active(dt(d))).collect::<Vec<_>>()})
            }
            "qnew" => qt = SimpleQuote::new(oq(&a[1])),
            "qset" => x = json!({"diff": guard_f(|| qt.set_value(oq(&a[1])))}),
            "qreset" => qt.reset(),
            o => panic!("harness: cash {o}"),
        }
        let mut ok = true;
        if let Some(r) = fresh {
            match r {
                Ok(v) => {
                    x = json!({"f": cf(&v)});
                    fl.push(v)
                }
                Err(_) => ok = false,
            }
        }
        out.push(json!({"ok": ok, "x": x, "q": jo(qt.value()), "valid": qt.is_valid(),
            // every flow made so far (operands are never changed)
            "all": fl.iter().map(|c| json!([jf(c.amount()), off(c.date())])).collect::<Vec<_>>()}));
    }
    Value::Array(out)
}

fn pos(v: &Value, n: &str) -> Position<Currency> {
    let a = v.as_array().unwrap();
    let cs = currencies();
    let c = cs[n.len() % cs.len()].1;
    Position::new(c, u(&a[0]), q(&a[1]), q(&a[2]), if n.len() % 2 == 0 { Some(c) } else { None })
}
fn portfolio(c: &Value) -> Value {
    let mut p: Portfolio<Currency> = Portfolio::new(HashMap::new());
    let mut out = vec![];
    for e in c["h"].as_array().unwrap() {
        let a = e.as_array().unwrap();
        let ok = guard(|| match s(&a[0]) {
            "make" => {
                let m = a[1].as_object().map(|o| o.iter().map(|(n, v)| (n.clone(), pos(v, n))).collect()).unwrap_or_default();
                p = Portfolio::new(m)
            }
            "price" => p.update_price(s(&a[1]), q(&a[2])),
            "qty" => p.update_quantity(s(&a[1]), u(&a[2])),
            "insert" => {
                p.positions.insert(s(&a[1]).to_string(), pos(&a[2], s(&a[1])));
            }
            "remove" => {
                p.positions.remove(s(&a[1]));
            }
            o => panic!("harness: portfolio {o}"),
        })
        .is_ok();
        out.push(json!({"ok": ok, "v": guard_f(|| p.value()), "c": guard_f(|| p.cost()), "p": guard_f(|| p.profit()),
            "w": p.position_weights().into_iter().map(|(n, w)| (n, jf(w as f64))).collect::<serde_json::Map<_, _>>(),
            "pos": p.positions.iter().map(|(n, x)| (n.clone(), json!([x.quantity, jf(x.purchase_price), jf(x.current_price), jf(x.value()), jf(x.profit())])))
                .collect::<serde_json::Map<_, _>>()}));
    }
    Value::Array(out)
}

/// What values print (C39).
fn printed(c: &Value) -> Value {
    let cs = currencies();
    let cur = || cs[u(&c["cur"]) as usize - 1].1;
    let code = |x: Currency| json!([x.name, x.code.alphabetic, x.code.numeric]);
    match s(&c["x"]) {
        "cash" => json!({"text": Cashflow::new(f(&c["amount"]), dt(&c["date"])).to_string(), "date": dt(&c["date"]).to_string()}),
        "money" => json!({"text": Money::new(cur(), f(&c["amount"])).to_string(), "cur": code(cur())}),
        "currency" => json!({"text": cur().to_string(), "cur": code(cur())}),
        "code" => json!({"text": ISO_4217::new(cur().code().alphabetic, cur().code().numeric).to_string(), "cur": code(cur())}),
        "vertex" => {
            use RustQuant_autodiff::vertex::Vertex;
            let n = |k: &str| f(&c[k]);
            let p = |k: &str| u(&c[k]) as usize;
            let v = match u(&c["arity"]) { 0 => Vertex::new_nullary(), 1 => Vertex::new_unary(n("a"), p("i")), _ => Vertex::new_binary(n("a"), p("i"), n("b"), p("j")) };
            let w = |k: usize| Vertex { partials: [n("p0") + if k == 1 { 0.25 } else { 0.0 }, n("p1") + if k == 2 { 0.25 } else { 0.0 }],
                parents: [p("q0") + if k == 3 { 1 } else { 0 }, p("q1") + if k == 4 { 1 } else { 0 }] };
            json!({"text": v.to_string(), "get": [jfs(&v.get_partials()), json!(v.get_parents())], "eq": (0..5).map(|k| v == w(k)).collect::<Vec<_>>(), "qe": (0..5).map(|k| w(k) == v).collect::<Vec<_>>()})
        }
        "schedule" => {
            use RustQuant_time::{DateRollingConvention as R, DayCountConvention as C, Schedule};
            let convs = [C::One_One, C::Actual_360, C::Actual_Actual_ISDA, C::Thirty_360_ISDA, C::No_Leap_365];
            let rolls = [R::Actual, R::Following, R::ModifiedFollowing, R::Preceding, R::ModifiedPreceding, R::ModifiedRolling];
            let pick = |n: String, all: Vec<String>| all.iter().position(|x| *x == n).unwrap_or_else(|| panic!("harness: {n}"));
            let v = Schedule {
                dates: c["dates"].as_array().unwrap().iter().map(dt).collect(),
                day_count_factors: fs(&c["factors"]),
                day_counting_convention: convs[pick(s(&c["conv"]).into(), convs.iter().map(|x| format!("{x:?}")).collect())],
                date_rolling_convention: rolls[pick(s(&c["roll"]).into(), rolls.iter().map(|x| format!("{x:?}")).collect())],
            };
            json!({"text": v.to_string(), "dates": v.dates.iter().map(|d| d.to_string()).collect::<Vec<_>>(), "same": v.clone().to_string() == v.to_string()})
        }
        k @ ("known" | "unknown") => {
            let mut b = RustQuant_trading::limit_order_book::Book::new();
            let id = u(&c["id"]);
            if k == "known" { b.add_order(id, true, 1, 1, 1).unwrap(); }
            json!({"text": if k == "known" { b.add_order(id, false, 2, 2, 2).unwrap_err().to_string() } else { b.cancel_order(id).unwrap_err().to_string() }})
        }
        o => panic!("harness: {o}"),
    }
}

fn main() {
    serve(|c| {
        let r = guard(|| match s(&c["k"]) {
            "fx" => fx(c),
            "iso" => iso(c),
            "cash" => cash(c),
            "pf" => portfolio(c),
            "print" => printed(c),
            o => panic!("harness: kind {o}"),
        });
        match r {
            Ok(v) => v,
            Err(m) => {
                if m.starts_with("harness:") {
                    eprintln!("{m}");
                    std::process::exit(101);
                }
                panicked(m)
            }
        }
    });
}
