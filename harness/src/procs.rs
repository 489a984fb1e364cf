// Processes of RustQuant_stochastics and two of our own, built from JSON.
#![allow(dead_code)]
use crate::common::*;
use serde_json::{json, Value};
use RustQuant_stochastics::*;

/// A constant, or a polynomial in t as a list of coefficients.
pub fn par(v: &Value) -> ModelParameter {
    match v {
        Value::Array(a) => {
            let c: Vec<f64> = a.iter().map(f).collect();
            ModelParameter::from(move |t: f64| c.iter().rev().fold(0.0, |acc, k| acc * t + k))
        }
        _ => ModelParameter::from(f(v)),
    }
}

/// Drift and diffusion: sums of c * x^i * t^j.
pub struct Poly {
    pub a: Vec<(f64, i32, i32)>,
    pub b: Vec<(f64, i32, i32)>,
}
fn poly(c: &[(f64, i32, i32)], x: f64, t: f64) -> f64 {
    c.iter().map(|(k, i, j)| k * x.powi(*i) * t.powi(*j)).sum()
}
impl StochasticProcess for Poly {
    fn drift(&self, x: f64, t: f64) -> f64 {
        poly(&self.a, x, t)
    }
    fn diffusion(&self, x: f64, t: f64) -> f64 {
        poly(&self.b, x, t)
    }
    fn jump(&self, _x: f64, _t: f64) -> Option<f64> {
        None
    }
}
pub fn terms(v: &Value) -> Vec<(f64, i32, i32)> {
    v.as_array().unwrap().iter().map(|t| (f(&t[0]), t[1].as_i64().unwrap() as i32, t[2].as_i64().unwrap() as i32)).collect()
}

/// A user's process that generates the paths it was given.
pub struct Fixed {
    pub paths: Vec<Vec<f64>>,
}
impl StochasticProcess for Fixed {
    fn drift(&self, _x: f64, _t: f64) -> f64 {
        0.0
    }
    fn diffusion(&self, _x: f64, _t: f64) -> f64 {
        0.0
    }
    fn jump(&self, _x: f64, _t: f64) -> Option<f64> {
        None
    }
    fn generate(&self, config: &StochasticProcessConfig) -> Trajectories {
        let n = self.paths[0].len();
        let dt = (config.t_n - config.t_0) / (n.max(2) - 1) as f64;
        Trajectories { times: (0..n).map(|i| config.t_0 + dt * i as f64).collect(), paths: self.paths.clone() }
    }
}

pub fn method(v: &Value) -> FractionalProcessGeneratorMethod {
    match s(v) {
        "cholesky" => FractionalProcessGeneratorMethod::CHOLESKY,
        _ => FractionalProcessGeneratorMethod::FFT,
    }
}

#[macro_export]
macro_rules! with_proc {
    ($v:expr, |$p:ident| $body:expr) => {{
        let v = $v;
        let a = |i: usize| $crate::procs::par(&v["a"][i]);
        let x = |i: usize| $crate::common::f(&v["a"][i]);
        let m = |i: usize| $crate::procs::method(&v["a"][i]);
        match v["p"].as_str().unwrap() {
            "bm" => { let $p = BrownianMotion::new(); $body }
            "abm" => { let $p = ArithmeticBrownianMotion::new(a(0), a(1)); $body }
            "gbm" => { let $p = GeometricBrownianMotion::new(a(0), a(1)); $body }
            "ou" => { let $p = OrnsteinUhlenbeck::new(a(0), a(1), a(2)); $body }
            "cir" => { let $p = CoxIngersollRoss::new(a(0), a(1), a(2)); $body }
            "cev" => { let $p = ConstantElasticityOfVariance::new(a(0), a(1), a(2)); $body }
            "ev" => { let $p = ExtendedVasicek::new(a(0), a(1), a(2)); $body }
            "hw" => { let $p = HullWhite::new(a(0), a(1), a(2)); $body }
            "hl" => { let $p = HoLee::new(a(0), a(1)); $body }
            "bdt" => { let $p = BlackDermanToy::new(a(0), a(1)); $body }
            "gbb" => { let $p = GeometricBrownianBridge::new(a(0), a(1), x(2), x(3)); $body }
            "mjd" => { let $p = MertonJumpDiffusion::new(a(0), a(1), a(2), x(3), x(4)); $body }
            "fbm" => { let $p = FractionalBrownianMotion::new(x(0), m(1)); $body }
            "fou" => { let $p = FractionalOrnsteinUhlenbeck::new(a(0), a(1), a(2), x(3), m(4)); $body }
            "fcir" => { let $p = FractionalCoxIngersollRoss::new(a(0), a(1), a(2), x(3), m(4)); $body }
            "poly" => { let $p = $crate::procs::Poly { a: $crate::procs::terms(&v["a"]), b: $crate::procs::terms(&v["b"]) }; $body }
            "fixed" => { let $p = $crate::procs::Fixed { paths: v["paths"].as_array().unwrap().iter().map($crate::common::fs).collect() }; $body }
            o => panic!("harness: process {o}"),
        }
    }};
}

pub fn config(v: &Value) -> StochasticProcessConfig {
    StochasticProcessConfig::new(
        f(&v["x0"]),
        f(&v["t0"]),
        f(&v["tn"]),
        u(&v["n"]) as usize,
        match s(&v["scheme"]) {
            "euler" => StochasticScheme::EulerMaruyama,
            "milstein" => StochasticScheme::Milstein,
            _ => StochasticScheme::StrangSplitting,
        },
        u(&v["m"]) as usize,
        b(&v["par"]),
        v["seed"].as_u64(),
    )
}

pub fn traj(t: Trajectories) -> Value {
    json!({ "t": jfs(&t.times), "p": t.paths.iter().map(|p| jfs(p)).collect::<Vec<_>>() })
}
