// Distributions (C25, C26).
#[path = "../common.rs"]
mod common;
use common::*;
use serde_json::{json, Value};
use RustQuant_math::distributions::*;

fn obj(c: &Value) -> Box<dyn Distribution> {
    let a = fs(&c["a"]);
    match s(&c["d"]) {
        "bernoulli" => Box::new(Bernoulli::new(a[0])),
        "binomial" => Box::new(Binomial::new(a[0] as usize, a[1])),
        "poisson" => Box::new(Poisson::new(a[0])),
        "uniform" => Box::new(Uniform::new(a[0], a[1], DistributionClass::Discrete)),
        "uniformc" => Box::new(Uniform::new(a[0], a[1], DistributionClass::Continuous)),
        "gaussian" => Box::new(Gaussian::new(a[0], a[1])),
        "exponential" => Box::new(Exponential::new(a[0])),
        "gamma" => Box::new(Gamma::new(a[0], a[1])),
        "chisquared" => Box::new(ChiSquared::new(a[0] as usize)),
        o => panic!("harness: distribution {o}"),
    }
}
fn main() {
    serve(|c| {
        let d = obj(c);
        let each = |name: &str, g: &dyn Fn(f64) -> f64| -> Value { fs(&c[name]).iter().map(|&x| guard_f(|| g(x))).collect() };
        let n = c["sample"].as_u64().unwrap_or(0) as usize;
        json!({
            "mean": guard_f(|| d.mean()), "median": guard_f(|| d.median()), "mode": guard_f(|| d.mode()),
            "variance": guard_f(|| d.variance()), "skewness": guard_f(|| d.skewness()), "kurtosis": guard_f(|| d.kurtosis()),
            "entropy": guard_f(|| d.entropy()),
            "pmf": each("pmf", &|x| d.pmf(x)), "pdf": each("pmf", &|x| d.pdf(x)), "cdf": each("cdf", &|x| d.cdf(x)),
            "inv": each("inv", &|x| d.inv_cdf(x)), "mgf": each("mgf", &|x| d.mgf(x)),
            "re": each("cf", &|x| d.cf(x).re), "im": each("cf", &|x| d.cf(x).im),
            "sample": if n == 0 { json!([]) } else {
                match guard(|| d.sample(n)) { Ok(Ok(v)) => jfs(&v), Ok(Err(e)) => json!({"err": e.to_string()}), Err(m) => panicked(m) }
            },
        })
    });
}
