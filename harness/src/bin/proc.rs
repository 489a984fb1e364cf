// Stochastic processes: coefficients, generated paths, fractional noise.
#[path = "../common.rs"]
mod common;
#[path = "../procs.rs"]
mod procs;
use common::*;
use serde_json::{json, Value};
use RustQuant_stochastics::*;

struct Vol {
    a: [Vec<(f64, i32, i32)>; 2],
    b: [Vec<(f64, i32, i32)>; 2],
}
fn poly(c: &[(f64, i32, i32)], x: f64, t: f64) -> f64 {
    c.iter().map(|(k, i, j)| k * x.powi(*i) * t.powi(*j)).sum()
}
impl StochasticVolatilityProcess for Vol {
    fn drift_1(&self, x: f64, t: f64) -> f64 {
        poly(&self.a[0], x, t)
    }
    fn drift_2(&self, x: f64, t: f64) -> f64 {
        poly(&self.a[1], x, t)
    }
    fn diffusion_1(&self, x: f64, t: f64) -> f64 {
        poly(&self.b[0], x, t)
    }
    fn diffusion_2(&self, x: f64, t: f64) -> f64 {
        poly(&self.b[1], x, t)
    }
}

fn main() {
    serve(|v| match s(&v["k"]) {
        "nss" => {
            let a = |n: &str| f(&v["a"][n]);
            let c = nelson_siegel_svensson::NelsonSiegelSvensson::new(a("b0"), a("b1"), a("b2"), a("b3"), a("l1"), a("l2"));
            let day = |n: i64| RustQuant_time::today() + time::Duration::days(n);
            let at: Vec<Value> = v["days"].as_array().unwrap().iter().map(|n| { let d = day(i(n));
                json!([guard_f(|| c.spot_rate(d)), guard_f(|| c.forward_rate(d)), guard_f(|| c.discount_factor(d))]) }).collect();
            let past = |d: time::Date| guard(|| c.spot_rate(d)).is_err() && guard(|| c.forward_rate(d)).is_err() && guard(|| c.discount_factor(d)).is_err();
            let word = |p: bool| if p { "panic" } else { "value" };
            json!({"v": at, "past": [word(past(day(0))), word(past(day(-400)))]})
        }
        "gen" => {
            let cfg = procs::config(&v["cfg"]);
            guard(|| with_proc!(&v["proc"], |p| p.generate(&cfg))).map(procs::traj).unwrap_or_else(panicked)
        }
        "coef" => guard(|| with_proc!(&v["proc"], |p| {
            let at: Vec<Value> = v["at"].as_array().unwrap().iter()
                .map(|q| json!([guard_f(|| p.drift(f(&q[0]), f(&q[1]))), guard_f(|| p.diffusion(f(&q[0]), f(&q[1])))])).collect();
            json!({"at": at, "params": jfs(&StochasticProcess::parameters(&p))})
        })).unwrap_or_else(panicked),
        "fgn" => {
            let one = |seed: Option<u64>| match s(&v["method"]) {
                "cholesky" => fgn_cholesky(f(&v["h"]), u(&v["n"]) as usize, f(&v["T"]), seed),
                _ => fgn_fft(f(&v["h"]), u(&v["n"]) as usize, f(&v["T"]), seed),
            };
            let r: Vec<Value> = v["seeds"].as_array().unwrap().iter().map(|q| guard(|| jfs(&one(q.as_u64()))).unwrap_or_else(panicked)).collect();
            json!({ "v": r })
        }
        "sv" => {
            let p = Vol { a: [procs::terms(&v["a1"]), procs::terms(&v["a2"])], b: [procs::terms(&v["b1"]), procs::terms(&v["b2"])] };
            guard(|| p.euler_maruyama(f(&v["x0"]), f(&v["y0"]), f(&v["t0"]), f(&v["tn"]), u(&v["n"]) as usize, u(&v["m"]) as usize, b(&v["par"])))
                .map(procs::traj).unwrap_or_else(panicked)
        }
        o => panic!("harness: {o}"),
    });
}
