// Interpolators (C15) and the rest of the mathematics crate.
#[path = "../common.rs"]
mod common;
use common::*;
use serde_json::{json, Value};
use time::{Date, Duration, Month, OffsetDateTime, PrimitiveDateTime, Time};
use RustQuant_error::RustQuantError;
use RustQuant_math::interpolation::*;

// ---- interpolation -------------------------------------------------------------------------
trait Axis: InterpolationIndex {
    fn at(n: i64) -> Self;
    fn pos(self) -> Value;
}
impl Axis for f64 {
    fn at(n: i64) -> f64 {
        n as f64 * 0.375 - 1.0
    }
    fn pos(self) -> Value {
        json!(((self + 1.0) / 0.375).round() as i64)
    }
}
impl Axis for f32 {
    fn at(n: i64) -> f32 {
        n as f32 * 0.5
    }
    fn pos(self) -> Value {
        json!((self / 0.5).round() as i64)
    }
}
impl Axis for Date {
    fn at(n: i64) -> Date {
        Date::from_calendar_date(2024, Month::February, 28).unwrap() + Duration::days(n)
    }
    fn pos(self) -> Value {
        json!((self - Self::at(0)).whole_days())
    }
}
impl Axis for Time {
    fn at(n: i64) -> Time {
        Time::from_hms(12, 0, 0).unwrap() + Duration::minutes(7 * n)
    }
    fn pos(self) -> Value {
        json!((self - Self::at(0)).whole_minutes() / 7)
    }
}
impl Axis for PrimitiveDateTime {
    fn at(n: i64) -> PrimitiveDateTime {
        PrimitiveDateTime::new(Date::at(0), Time::from_hms(23, 0, 0).unwrap()) + Duration::minutes(90 * n)
    }
    fn pos(self) -> Value {
        json!((self - Self::at(0)).whole_minutes() / 90)
    }
}
impl Axis for OffsetDateTime {
    fn at(n: i64) -> OffsetDateTime {
        PrimitiveDateTime::at(0).assume_utc() + Duration::seconds(n)
    }
    fn pos(self) -> Value {
        json!((self - Self::at(0)).whole_seconds())
    }
}
fn err(e: &RustQuantError) -> String {
    format!("{e:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}
fn ans<V>(r: Result<V, RustQuantError>, to: impl Fn(V) -> Value) -> Value {
    match r {
        Ok(v) => json!([to(v)]),
        Err(e) => json!(err(&e)),
    }
}
fn history<X, V, I>(c: &Value, make: impl Fn(Vec<X>, Vec<V>) -> Result<I, RustQuantError>, at: impl Fn(i64) -> X, pos: impl Fn(X) -> Value,
    num: impl Fn(&Value) -> V, to: impl Fn(V) -> Value) -> Value
where
    X: InterpolationIndex,
    V: InterpolationValue,
    I: Interpolator<X, V>,
{
    let mut ip: Option<I> = None;
    let mut out = vec![];
    for e in c["h"].as_array().unwrap() {
        let a = e.as_array().unwrap();
        let r = guard(|| match s(&a[0]) {
            "new" => {
                let p = a[1].as_array().unwrap();
                let xs: Vec<X> = p.iter().map(|t| at(i(&t[0]))).collect();
                let ys: Vec<V> = p.iter().map(|t| num(&t[1])).collect();
                let short = make(xs[1..].to_vec(), ys.clone()).is_err() && make(xs.clone(), ys[1..].to_vec()).is_err();
                ip = Some(make(xs, ys).expect("equal lengths"));
                json!({"short": short})
            }
            "fit" => {
                ip.as_mut().unwrap().fit().expect("fit");
                json!({})
            }
            "add" => {
                ip.as_mut().unwrap().add_point((at(i(&a[1])), num(&a[2])));
                json!({})
            }
            "ask" => {
                let k = ip.as_ref().unwrap();
                let (lo, hi) = k.range();
                let q = a[1].as_array().unwrap();
                json!({"lo": pos(lo), "hi": pos(hi), "a": q.iter().map(|x| ans(k.interpolate(at(i(x))), &to)).collect::<Vec<_>>()})
            }
            o => panic!("harness: interp {o}"),
        });
        match r {
            Ok(v) => out.push(v),
            Err(m) => {
                out.push(panicked(m));
                break;
            }
        }
    }
    Value::Array(out)
}
fn interp(c: &Value) -> Value {
    let lin = s(&c["m"]) == "lin";
    macro_rules! go {
        ($t:ty, $v:ty) => {
            if lin {
                history(c, LinearInterpolator::<$t, $v>::new, <$t>::at, |x: $t| x.pos(), |v| f(v) as $v, |v| jf(v as f64))
            } else {
                history(c, ExponentialInterpolator::<$t, $v>::new, <$t>::at, |x: $t| x.pos(), |v| f(v) as $v, |v| jf(v as f64))
            }
        };
    }
    match s(&c["t"]) {
        "f64" => go!(f64, f64),
        "f32" => go!(f32, f32),
        "date" => go!(Date, f64),
        "time" => go!(Time, f64),
        "prim" => go!(PrimitiveDateTime, f64),
        "offset" => go!(OffsetDateTime, f64),
        "dec" => history(c, LinearInterpolator::<rust_decimal::Decimal, rust_decimal::Decimal>::new, |n| rust_decimal::Decimal::new(n * 25, 1),
            |x| json!((x / rust_decimal::Decimal::new(25, 1)).to_string().parse::<f64>().unwrap() as i64),
            |v| rust_decimal::Decimal::from(i(&v[0])) / rust_decimal::Decimal::from(i(&v[1])),
            |v| json!(v.to_string().parse::<f64>().unwrap())),
        o => panic!("harness: axis {o}"),
    }
}
fn spline_as<X: Axis, V: InterpolationValue + Send + Sync + 'static>(c: &Value, half: impl Fn(i64) -> X, num: impl Fn(&Value) -> V, to: impl Fn(V) -> Value) -> Value
where
    X: InterpolationIndex<DeltaDiv = V> + Send + Sync,
{
    let mut ip: Option<BSplineInterpolator<X, V>> = None;
    let mut out = vec![];
    for e in c["h"].as_array().unwrap() {
        let a = e.as_array().unwrap();
        let r = guard(|| {
            match s(&a[0]) {
                "new" | "bad" => {
                    let k = a[1].as_array().unwrap().iter().map(|x| half(2 * i(x))).collect();
                    let cp: Vec<V> = a[2].as_array().unwrap().iter().map(&num).collect();
                    match BSplineInterpolator::new(k, cp, u(&a[3]) as usize) {
                        Ok(x) => ip = Some(x),
                        Err(e) => return json!({"err": err(&e), "msg": e.to_string()}),
                    }
                }
                "add" => ip.as_mut().unwrap().add_point((half(2 * i(&a[1])), num(&a[2]))),
                o => panic!("harness: spline {o}"),
            }
            if c["fit"] == json!(true) {
                ip.as_mut().unwrap().fit().unwrap();
            }
            let k = ip.as_ref().unwrap();
            let (lo, hi) = k.range();
            let q = a.last().unwrap().as_array().unwrap();
            json!({"lo": lo.pos(), "hi": hi.pos(), "a": q.iter().map(|x| ans(k.interpolate(half(i(x))), &to)).collect::<Vec<_>>()})
        });
        match r {
            Ok(v) => out.push(v),
            Err(m) => {
                out.push(panicked(m));
                break;
            }
        }
    }
    Value::Array(out)
}
fn spline(c: &Value) -> Value {
    match s(&c["t"]) {
        "f64" => spline_as::<f64, f64>(c, f64::at, f, jf),
        "f32" => spline_as::<f32, f32>(c, f32::at, |v| f(v) as f32, |v| jf(v as f64)),
        "date" => spline_as::<Date, f64>(c, Date::at, f, jf),
        "offset" => spline_as::<OffsetDateTime, f64>(c, OffsetDateTime::at, f, jf),
        o => panic!("harness: axis {o}"),
    }
}
// ---- statistics ------------------------------------------------------------------------------
fn stats(c: &Value) -> Value {
    use RustQuant_math::Statistic;
    let x = fs(&c["x"]);
    if !c["y"].is_null() {
        let y = fs(&c["y"]);
        return json!({"cov": guard_f(|| x.covariance(&y)), "cor": guard_f(|| x.correlation(&y))});
    }
    let p = fs(&c["p"]);
    macro_rules! all { ($($m:ident)*) => { json!({$(stringify!($m): guard_f(|| x.$m())),*}) } }
    let mut o = all!(mean arithmetic_mean geometric_mean harmonic_mean variance sample_variance population_variance standard_deviation
        sample_standard_deviation population_standard_deviation skewness kurtosis min max median interquartile_range range);
    o["q"] = p.iter().map(|p| guard_f(|| x.quantile(*p))).collect();
    o["pc"] = p.iter().map(|p| guard_f(|| x.percentile(*p))).collect();
    o
}
// ---- sequences and Fourier transforms --------------------------------------------------------
fn seqs(c: &Value) -> Value {
    use RustQuant_math::Sequence;
    let a = c["a"].as_array().unwrap();
    macro_rules! go {
        ($t:ty, $of:expr) => {{
            let of = $of;
            let r: Result<Vec<$t>, String> = guard(|| match s(&c["m"]) {
                "seq" => <$t>::seq(of(&a[0]), of(&a[1]), of(&a[2])),
                "lin" | "refuse" => <$t>::linspace(of(&a[0]), of(&a[1]), u(&a[2]) as usize),
                "rep" => <$t>::rep(of(&a[0]), u(&a[1]) as usize),
                "cum" => <$t>::cumsum(&a[0].as_array().unwrap().iter().map(|v| of(v)).collect::<Vec<$t>>()),
                o => panic!("harness: seqs {o}"),
            });
            match r {
                Ok(v) => json!({"v": v.into_iter().map(|x| jf(x as f64)).collect::<Vec<_>>()}),
                Err(m) => panicked(m),
            }
        }};
    }
    match s(&c["t"]) {
        "f64" => go!(f64, |v: &Value| f(v)),
        "f32" => go!(f32, |v: &Value| f(v) as f32),
        "i8" => go!(i8, |v: &Value| i(v) as i8),
        "i16" => go!(i16, |v: &Value| i(v) as i16),
        "i32" => go!(i32, |v: &Value| i(v) as i32),
        "i64" => go!(i64, |v: &Value| i(v)),
        "u8" => go!(u8, |v: &Value| i(v) as u8),
        "u16" => go!(u16, |v: &Value| i(v) as u16),
        "u32" => go!(u32, |v: &Value| i(v) as u32),
        "u64" => go!(u64, |v: &Value| i(v) as u64),
        "usize" => go!(usize, |v: &Value| i(v) as usize),
        o => panic!("harness: type {o}"),
    }
}
fn fourier(c: &Value) -> Value {
    use num::Complex;
    use RustQuant_math::*;
    let z: Vec<Complex<f64>> = c["x"].as_array().unwrap().iter().map(|p| Complex::new(f(&p[0]), f(&p[1]))).collect();
    let re: Vec<f64> = z.iter().map(|v| v.re).collect();
    let pairs = |v: &[Complex<f64>]| v.iter().flat_map(|w| [jf(w.re), jf(w.im)]).collect::<Vec<_>>();
    let val = |r: Result<Vec<Value>, String>| r.map_or_else(panicked, Value::Array);
    json!({
        "valid": is_valid_length(&z),
        "c": val(guard(|| { let k = z.clone(); let r = fft_complex(&z); assert!(k == z); pairs(&r) })),
        "ci": val(guard(|| { let mut k = z.clone(); fft_complex_inplace(&mut k); pairs(&k) })),
        "r": val(guard(|| { let k = re.clone(); let r = fft_real(&re); assert!(k == re); r.into_iter().map(jf).collect() })),
        "ri": val(guard(|| { let mut k = re.clone(); fft_real_inplace(&mut k); k.into_iter().map(jf).collect() })),
    })
}
fn main() {
    serve(|c| match s(&c["k"]) {
        "interp" => interp(c),
        "spline" => spline(c),
        "stats" => stats(c),
        "seqs" => seqs(c),
        "fourier" => fourier(c),
        o => panic!("harness: mathx {o}"),
    });
}
