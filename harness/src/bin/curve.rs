// Curves (C14) and their fitting loss (C37).
#[path = "../common.rs"]
mod common;
use common::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use time::{Date, Duration, Month};
use RustQuant_data::{Curve, CurveType, InterpolationMethod};

thread_local!(static BASE: std::cell::Cell<Option<Date>> = const { std::cell::Cell::new(None) });
fn base() -> Date {
    BASE.get().unwrap_or(Date::from_calendar_date(2024, Month::January, 31).unwrap())
}
fn day(n: i64) -> Date {
    base() + Duration::days(n)
}
fn num(d: Date) -> i64 {
    (d - base()).whole_days()
}
fn opt(r: Option<f64>) -> Value {
    r.map_or(json!([]), |x| json!([jf(x)]))
}
fn view(c: &Curve, asks: &[i64]) -> Value {
    let q: Vec<Date> = asks.iter().map(|a| day(*a)).collect();
    json!({
        "d": c.dates().into_iter().map(num).collect::<Vec<_>>(), "r": jfs(&c.rates()), "len": c.len(), "empty": c.is_empty(),
        "fd": c.first_date().map(|d| num(*d)), "ld": c.last_date().map(|d| num(*d)),
        "fr": opt(c.first_rate().copied()), "lr": opt(c.last_rate().copied()),
        "one": q.iter().map(|d| opt(c.get_rate(*d))).collect::<Vec<_>>(),
        "many": c.get_rates(q.clone()).into_iter().map(opt).collect::<Vec<_>>(),
        "b": q.iter().map(|d| { let (l, r) = c.get_brackets(*d); json!([num(l), num(r)]) }).collect::<Vec<_>>(),
        "m": match c.interpolation_method() { InterpolationMethod::Linear => "lin", InterpolationMethod::Exponential => "exp", _ => "other" },
    })
}
fn run(c: &Value) -> Value {
    if c.get("loss").is_none() {
        BASE.set(None);
        return replay(c);
    }
    // dates count from today
    let t = RustQuant_time::today();
    BASE.set(Some(t));
    let r = replay(c);
    if RustQuant_time::today() == t { r } else { json!({"skipped": "midnight"}) }
}
fn replay(c: &Value) -> Value {
    let method = if s(&c["m"]) == "lin" { InterpolationMethod::Linear } else { InterpolationMethod::Exponential };
    let ty = [CurveType::Flat, CurveType::Spot, CurveType::Forward, CurveType::Discount][u(&c["t"]) as usize];
    let asks: Vec<i64> = c["q"].as_array().unwrap().iter().map(i).collect();
    let mut curve: Option<Curve> = None;
    let mut out = vec![];
    for e in c["h"].as_array().unwrap() {
        let a = e.as_array().unwrap();
        let pairs = |v: &Value| -> Vec<(Date, f64)> { v.as_array().unwrap().iter().map(|p| (day(i(&p[0])), f(&p[1]))).collect() };
        let days = |v: &Value| -> Vec<Date> { v.as_array().unwrap().iter().map(|x| day(i(x))).collect() };
        let r = guard(|| {
            let mut x = json!([]);
            if s(&a[0]) == "make" {
                let p = pairs(&a[2]);
                curve = Some(if s(&a[1]) == "new" {
                    Curve::new(p.iter().map(|t| t.0).collect(), p.iter().map(|t| t.1).collect(), ty, method).expect("equal lengths")
                } else {
                    Curve::from_nodes(p.into_iter().collect::<BTreeMap<_, _>>(), ty, method).expect("equal lengths")
                });
                let p = pairs(&a[2]);
                for (nd, nr) in [(p.len(), p.len() - 1), (p.len() - 1, p.len())] {
                    let d = p.iter().take(nd).map(|t| t.0).collect();
                    let r = p.iter().take(nr).map(|t| t.1).collect();
                    assert!(Curve::new(d, r, ty, method).is_err(), "unequal lengths are refused");
                }
            } else {
                let k = curve.as_mut().unwrap();
                match s(&a[0]) {
                    "set" => k.set_rate(day(i(&a[1])), f(&a[2])),
                    "sets" => k.set_rates(pairs(&a[1])),
                    "get" => x = json!([opt(k.get_rate(day(i(&a[1]))))]),
                    "gets" => x = k.get_rates(days(&a[1])).into_iter().map(opt).collect(),
                    "ins" => x = json!([opt(k.get_rate_and_insert(day(i(&a[1]))))]),
                    "inss" => x = k.get_rates_and_insert(days(&a[1])).into_iter().map(opt).collect(),
                    "shift" => k.shift(f(&a[1])),
                    o => panic!("harness: curve {o}"),
                }
            }
            let k = curve.as_ref().unwrap();
            if let Some(ps) = c.get("loss") {
                let ps: Vec<Vec<f64>> = ps.as_array().unwrap().iter().map(|p| p.as_array().unwrap().iter().map(f).collect()).collect();
                return Value::Array(ps.iter().map(|p| guard(|| argmin::core::CostFunction::cost(k, p)).map_or(json!("panic"), |r| r.map_or(json!("err"), jf))).collect());
            }
            json!({"x": x, "v": view(k, &asks), "c": view(&k.clone(), &asks)})
        });
        match r {
            Ok(v) => out.push(v),
            Err(m) => {
                out.push(panicked(m));
                break;
            }
        }
    }
    Value::Array(out)
}
fn main() {
    serve(run);
}
