// Root finders, the integrator (C24) and gradient descent (C27).
#[path = "../common.rs"]
mod common;
use common::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use RustQuant_autodiff::variable::Variable;
use RustQuant_math::rootfinder::{Rootfinder, RootfinderData};
use RustQuant_math::{bisection, brent, integrate, newton_raphson, GradientDescent};

/// A formula of the specification (Expr.tla) in the variable x.
fn ev(e: &Value, x: f64) -> f64 {
    let a = |k: usize| ev(&e[k], x);
    match s(&e[0]) {
        "n" => f(&e[1]),
        "q" => f(&e[1]) / f(&e[2]),
        "x" => x,
        "pi" => std::f64::consts::PI,
        "neg" => -a(1),
        "add" => a(1) + a(2),
        "sub" => a(1) - a(2),
        "mul" => a(1) * a(2),
        "div" => a(1) / a(2),
        "pow" => a(1).powf(a(2)),
        "phi" => (-0.5 * a(1) * a(1)).exp() / (2.0 * std::f64::consts::PI).sqrt(),
        "exp" => a(1).exp(),
        "ln" => a(1).ln(),
        "sqrt" => a(1).sqrt(),
        "sin" => a(1).sin(),
        "cos" => a(1).cos(),
        "sinh" => a(1).sinh(),
        "cosh" => a(1).cosh(),
        "tanh" => a(1).tanh(),
        "atan" => a(1).atan(),
        "asin" => a(1).asin(),
        o => panic!("harness: formula {o}"),
    }
}

fn root(c: &Value) -> Value {
    let (g, d, rho, sgn) = (&c["g"], &c["d"], f(&c["rho"]), f(&c["sgn"]));
    let g0 = ev(g, rho);
    let seen = RefCell::new(Vec::<(f64, f64)>::new());
    let fun = |x: f64| {
        let y = sgn * (ev(g, x) - g0);
        let mut v = seen.borrow_mut();
        assert!(v.len() < 5000, "more than 5000 evaluations");
        v.push((x, y));
        y
    };
    let der = |x: f64| sgn * ev(d, x);
    let data = if c["data"].is_null() {
        RootfinderData::default()
    } else {
        let p = &c["data"];
        RootfinderData::new(f(&p[0]), f(&p[1]), f(&p[2]), f(&p[3]), b(&p[4]))
    };
    let guess = f(&c["guess"]);
    // the same solver twice: solving has no memory
    let twice = |r: &mut dyn FnMut() -> f64| {
        let one = guard_f(&mut *r);
        let trace: Vec<Value> = seen.borrow().iter().map(|p| json!([jf(p.0), jf(p.1)])).collect();
        seen.borrow_mut().clear();
        let two = guard_f(&mut *r);
        json!({"r": one, "again": two, "t": trace})
    };
    match s(&c["m"]) {
        "bisection" => { let mut o = bisection::Bisection::new(fun, guess, data); twice(&mut || o.solve()) }
        "brent" => { let mut o = brent::Brent::new(fun, guess, data); twice(&mut || o.solve()) }
        "newton" => { let mut o = newton_raphson::NewtonRaphson::new(fun, der, guess, data); twice(&mut || o.solve()) }
        o => panic!("harness: method {o}"),
    }
}

fn integral(c: &Value) -> Value {
    let seen = RefCell::new((f64::INFINITY, f64::NEG_INFINITY));
    let r = guard_f(|| {
        integrate(
            |x| {
                let mut p = seen.borrow_mut();
                *p = (p.0.min(x), p.1.max(x));
                ev(&c["f"], x)
            },
            f(&c["a"]),
            f(&c["b"]),
        )
    });
    let p = *seen.borrow();
    json!({"r": r, "lo": jf(p.0), "hi": jf(p.1)})
}

thread_local!(static POLY: RefCell<Vec<(f64, Vec<i32>)>> = const { RefCell::new(Vec::new()) });
thread_local!(static SEEN: RefCell<Vec<Vec<f64>>> = const { RefCell::new(Vec::new()) });
/// A polynomial in differentiable variables: sum of coefficient times powers.
fn poly<'v>(x: &[Variable<'v>]) -> Variable<'v> {
    SEEN.with(|p| p.borrow_mut().push(x.iter().map(|v| v.value).collect()));
    POLY.with(|p| {
        let mut sum = x[0] * 0.0;
        for (c, e) in p.borrow().iter() {
            let mut t: Option<Variable<'v>> = None;
            for (v, &k) in x.iter().zip(e) {
                for _ in 0..k {
                    t = Some(match t {
                        None => *v,
                        Some(w) => w * *v,
                    });
                }
            }
            sum = match t {
                None => sum + *c,
                Some(w) => sum + w * *c,
            };
        }
        sum
    })
}
fn gd(c: &Value) -> Value {
    POLY.with(|p| {
        *p.borrow_mut() = c["poly"].as_array().unwrap().iter()
            .map(|m| (f(&m[0]), m[1].as_array().unwrap().iter().map(|k| i(k) as i32).collect())).collect();
    });
    SEEN.with(|p| p.borrow_mut().clear());
    let tol = if c["tol"].is_null() { None } else { Some(f(&c["tol"])) };
    let r = guard(|| GradientDescent::new(f(&c["lr"]), u(&c["max"]) as usize, tol).optimize(poly, &fs(&c["x0"]), false));
    match r {
        Err(m) => panicked(m),
        Ok(r) => json!({"x": jfs(&r.minimizer), "f": jf(r.minimum), "n": r.iterations}),
    }
}

/// assert_approx_equal! (C40): does it pass, and does a failure name its three arguments?
fn approx(c: &Value) -> Value {
    macro_rules! go {
        ($t:ty, $of:expr) => {
            c["q"].as_array().unwrap().iter().map(|q| {
                let (x, y, d): ($t, $t, $t) = ($of(&q[0]), $of(&q[1]), $of(&q[2]));
                match guard(|| RustQuant_utils::assert_approx_equal!(x, y, d)) {
                    Ok(()) => json!({"ok": true, "named": false}),
                    Err(m) => json!({"ok": false, "named": ([x.to_string(), y.to_string(), d.to_string()].iter().all(|w| m.contains(w.as_str())))}),
                }
            }).collect::<Vec<_>>()
        };
    }
    let r = match s(&c["ty"]) {
        "f64" => go!(f64, |v| f(v)),
        "f32" => go!(f32, |v| f(v) as f32),
        "i64" => go!(i64, |v| i(v)),
        "i32" => go!(i32, |v| i(v) as i32),
        o => panic!("harness: {o}"),
    };
    json!({"r": r, "eps": RustQuant_utils::RUSTQUANT_EPSILON})
}

fn main() {
    serve(|c| match s(&c["k"]) {
        "root" => root(c),
        "int" => integral(c),
        "gd" => gd(c),
        "approx" => approx(c),
        o => panic!("harness: num {o}"),
    });
}
