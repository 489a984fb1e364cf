// Line protocol shared by the harness binaries: one JSON case per input line, one JSON
// answer per output line, flushed at once so that an abort is attributed to its case.
#![allow(dead_code)]
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn serve<F: FnMut(&Value) -> Value>(mut f: F) {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.trim().is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(&line).expect("case is JSON");
        let r = f(&v);
        serde_json::to_writer(&mut out, &r).expect("write");
        out.write_all(b"\n").expect("write");
        out.flush().expect("flush");
    }
}

/// Run code under test; a panic is an observation, not an error of the harness.
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

pub fn panicked(m: String) -> Value {
    json!({ "panic": m })
}

/// f64 as JSON: finite numbers as numbers, the others as strings.
pub fn jf(x: f64) -> Value {
    if x.is_finite() {
        json!(x)
    } else if x.is_nan() {
        json!("nan")
    } else if x > 0.0 {
        json!("inf")
    } else {
        json!("-inf")
    }
}

pub fn jfs(x: &[f64]) -> Value {
    Value::Array(x.iter().map(|v| jf(*v)).collect())
}

pub fn guard_f<F: FnOnce() -> f64>(f: F) -> Value {
    match guard(f) {
        Ok(x) => jf(x),
        Err(m) => panicked(m),
    }
}

pub fn f(v: &Value) -> f64 {
    match v {
        Value::Number(n) => n.as_f64().unwrap(),
        Value::String(s) if s == "nan" => f64::NAN,
        Value::String(s) if s == "inf" => f64::INFINITY,
        Value::String(s) if s == "-inf" => f64::NEG_INFINITY,
        // Rational: [num, den]
        Value::Array(a) if a.len() == 2 => f(&a[0]) / f(&a[1]),
        _ => panic!("harness: not a number: {v}"),
    }
}
pub fn fs(v: &Value) -> Vec<f64> {
    v.as_array().expect("array").iter().map(f).collect()
}
pub fn u(v: &Value) -> u64 {
    v.as_u64().unwrap_or_else(|| panic!("harness: not u64: {v}"))
}
pub fn i(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("harness: not i64: {v}"))
}
pub fn s(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("harness: not a string: {v}"))
}
pub fn b(v: &Value) -> bool {
    v.as_bool().unwrap_or_else(|| panic!("harness: not a bool: {v}"))
}
