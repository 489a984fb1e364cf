// Option payoffs and Monte Carlo prices.
#[path = "../common.rs"]
mod common;
#[path = "../procs.rs"]
mod procs;
use common::*;
use serde_json::{json, Value};
use time::macros::date;
use RustQuant_instruments::*;
use RustQuant_stochastics::*;

enum C {
    Vanilla(EuropeanVanillaOption),
    Binary(BinaryOption),
    Asian(AsianOption),
    Barrier(BarrierOption),
    Lookback(LookbackOption),
    PowerContract(PowerContract),
    Power(PowerOption),
    Powered(PoweredOption),
    Capped(CappedPowerOption),
    LogMoneyness(LogMoneynessContract),
    LogUnderlying(LogUnderlyingContract),
    Log(LogOption),
    Supershare(SupershareOption),
}

fn opt(v: &Value) -> Option<f64> {
    match v {
        Value::Null => None,
        Value::Array(a) if a.len() == 2 && a[1] == json!(0) => None,
        _ => Some(f(v)),
    }
}

fn build(c: &Value) -> C {
    let type_flag = if c["type"] == "put" { TypeFlag::Put } else { TypeFlag::Call };
    let exercise_flag = match c["ex"].as_str() {
        Some("american") => ExerciseFlag::American { start: date!(2030 - 01 - 01), end: date!(2031 - 01 - 01) },
        Some("bermudan") => ExerciseFlag::Bermudan { exercise_dates: vec![date!(2030 - 06 - 01), date!(2031 - 01 - 01)] },
        _ => ExerciseFlag::European { expiry: date!(2031 - 01 - 01) },
    };
    let contract = OptionContract {
        type_flag,
        exercise_flag,
        strike_flag: match c["strike"].as_str() {
            Some("fixed") => Some(StrikeFlag::Fixed),
            Some("floating") => Some(StrikeFlag::Floating),
            _ => None,
        },
        settlement_flag: match c["set"].as_str() {
            Some("cash") => Some(SettlementFlag::Cash),
            Some("physical") => Some(SettlementFlag::Physical),
            _ => None,
        },
    };
    let k = || f(&c["k"]);
    let m = || f(&c["m"]);
    match s(&c["f"]) {
        "vanilla" => C::Vanilla(EuropeanVanillaOption::new(k(), date!(2031 - 01 - 01), type_flag)),
        "binary" => C::Binary(BinaryOption {
            contract,
            strike: k(),
            binary_type: if c["pays"] == "cash" { BinaryType::CashOrNothing } else { BinaryType::AssetOrNothing },
        }),
        "asian" => C::Asian(AsianOption::new(
            contract,
            if c["avg"] == "arith" { AveragingMethod::ArithmeticDiscrete } else { AveragingMethod::GeometricDiscrete },
            opt(&c["k"]),
        )),
        "barrier" => C::Barrier(BarrierOption {
            contract,
            barrier_type: match s(&c["kind"]) {
                "ui" => BarrierType::UpAndIn,
                "uo" => BarrierType::UpAndOut,
                "di" => BarrierType::DownAndIn,
                _ => BarrierType::DownAndOut,
            },
            barrier: f(&c["b"]),
            strike: k(),
            rebate: opt(&c["reb"]),
        }),
        "lookback" => C::Lookback(LookbackOption { contract, strike: opt(&c["k"]) }),
        "powercontract" => C::PowerContract(PowerContract::new(k(), m())),
        "power" => C::Power(PowerOption::new(contract, k(), m())),
        "powered" => C::Powered(PoweredOption::new(contract, k(), m())),
        "capped" => C::Capped(CappedPowerOption::new(contract, k(), m(), f(&c["cap"]))),
        "logmoneyness" => C::LogMoneyness(LogMoneynessContract { contract, strike: k() }),
        "logunderlying" => C::LogUnderlying(LogUnderlyingContract { contract, strike: k() }),
        "logoption" => C::Log(LogOption { contract, strike: k() }),
        "supershare" => C::Supershare(SupershareOption { contract, strike_1: k(), strike_2: f(&c["k2"]) }),
        o => panic!("harness: contract {o}"),
    }
}

fn pay(c: &C, path: &[f64]) -> f64 {
    let last = || *path.last().unwrap();
    match c {
        C::Vanilla(o) => o.payoff(last()),
        C::Binary(o) => o.payoff(last()),
        C::Asian(o) => o.payoff(path.to_vec()),
        C::Barrier(o) => o.payoff(path.to_vec()),
        C::Lookback(o) => o.payoff(path.to_vec()),
        C::PowerContract(o) => o.payoff(last()),
        C::Power(o) => o.payoff(last()),
        C::Powered(o) => o.payoff(last()),
        C::Capped(o) => o.payoff(last()),
        C::LogMoneyness(o) => o.payoff(last()),
        C::LogUnderlying(o) => o.payoff(last()),
        C::Log(o) => o.payoff(last()),
        C::Supershare(o) => o.payoff(last()),
    }
}

fn mc<S: StochasticProcess>(c: &C, p: &S, cfg: &StochasticProcessConfig, r: f64) -> f64 {
    match c {
        C::Vanilla(o) => o.price_monte_carlo(p, cfg, r),
        C::Binary(o) => o.price_monte_carlo(p, cfg, r),
        C::Asian(o) => o.price_monte_carlo(p, cfg, r),
        C::Barrier(o) => o.price_monte_carlo(p, cfg, r),
        C::Lookback(_) => f64::NAN,
        C::PowerContract(o) => o.price_monte_carlo(p, cfg, r),
        C::Power(o) => o.price_monte_carlo(p, cfg, r),
        C::Powered(o) => o.price_monte_carlo(p, cfg, r),
        C::Capped(o) => o.price_monte_carlo(p, cfg, r),
        C::LogMoneyness(o) => o.price_monte_carlo(p, cfg, r),
        C::LogUnderlying(o) => o.price_monte_carlo(p, cfg, r),
        C::Log(o) => o.price_monte_carlo(p, cfg, r),
        C::Supershare(o) => o.price_monte_carlo(p, cfg, r),
    }
}

fn side(v: &Value) -> TypeFlag {
    if v["side"] == "put" { TypeFlag::Put } else { TypeFlag::Call }
}

macro_rules! gbsm {
    ($m:expr, $other:expr, $v:expr) => {{
        let (m, v) = ($m, $v);
        let (k, z) = (f(&v["kk"]), side(v));
        if v["days"].is_null() {
            let t = f(&v["t"]);
            json!({"price": jf(m.price(k, t, z)), "delta": jf(m.delta(k, t, z)), "gamma": jf(m.gamma(k, t, z)), "theta": jf(m.theta(k, t, z)),
                "vega": jf(m.vega(k, t, z)), "rho": jf(m.rho(k, t, z)), "vanna": jf(m.vanna(k, t, z)), "charm": jf(m.charm(k, t, z)),
                "lambda": jf(m.lambda(k, t, z)), "zomma": jf(m.zomma(k, t, z)), "speed": jf(m.speed(k, t, z)), "color": jf(m.color(k, t, z)),
                "vomma": jf(m.vomma(k, t, z)), "ultima": jf(m.ultima(k, t, z)), "d1": jf(m.d1(k, t)), "d2": jf(m.d2(k, t))})
        } else {
            let option = EuropeanVanillaOption::new(k, expiry(v), z);
            // half of the pricers were made for another option and another model, priced, and then set to these
            let o = if i(&v["days"]) % 2 == 0 { AnalyticOptionPricer::new(option, m) } else {
                let mut o = AnalyticOptionPricer::new(EuropeanVanillaOption::new(k + 1.0, expiry(v) + time::Duration::days(40), if matches!(z, TypeFlag::Put) { TypeFlag::Call } else { TypeFlag::Put }), $other);
                let _ = o.price();
                o.set_option(option);
                o.set_model(m);
                o
            };
            json!({"price": jf(o.price()), "delta": jf(o.delta()), "gamma": jf(o.gamma()), "theta": jf(o.theta()),
                "vega": jf(o.vega()), "rho": jf(o.rho()), "vanna": jf(o.vanna()), "charm": jf(o.charm()),
                "lambda": jf(o.lambda()), "zomma": jf(o.zomma()), "speed": jf(o.speed()), "color": jf(o.color()),
                "vomma": jf(o.vomma()), "ultima": jf(o.ultima())})
        }
    }};
}

/// an expiry the given number of days from today
fn expiry(v: &Value) -> time::Date {
    RustQuant_time::today() + time::Duration::days(i(&v["days"]))
}

fn gbsm_struct(v: &Value) -> BlackScholesMerton {
    let a = |n: &str| f(&v["a"][n]);
    let (d0, d1) = if v["today"] == json!(true) { (None, expiry(v)) } else {
        let e = date!(2023 - 11 - 20);
        (Some(e), e + time::Duration::days(i(&v["days"])))
    };
    BlackScholesMerton::new(a("b"), a("s"), f(&v["kk"]), a("v"), a("r"), d0, d1, side(v))
}

fn greeks(v: &Value) -> Value {
    let a = |n: &str| f(&v["a"][n]);
    match s(&v["m"]) {
        "bs" => gbsm!(BlackScholes73::new(a("s"), a("r"), a("v")), BlackScholes73::new(3.0, 0.5, 0.9), v),
        "merton" => gbsm!(Merton73::new(a("s"), a("r"), a("q"), a("v")), Merton73::new(3.0, 0.5, 0.2, 0.9), v),
        "black" => gbsm!(Black76::new(a("s"), a("r"), a("v")), Black76::new(3.0, 0.5, 0.9), v),
        "asay" => gbsm!(Asay82::new(a("s"), a("v")), Asay82::new(3.0, 0.9), v),
        "gk" => gbsm!(GarmanKohlhagen83::new(a("s"), a("r"), a("rf"), a("v")), GarmanKohlhagen83::new(3.0, 0.5, 0.2, 0.9), v),
        "gbsm" | "gyield" => {
            let o = gbsm_struct(v);
            let npv: f64 = Instrument::price(&o);
            let from = o.evaluation_date.unwrap_or_else(RustQuant_time::today);
            json!({"vd": (o.valuation_date() - from).whole_days(), "price": jf(o.price()), "npv": jf(npv), "delta": jf(o.delta()), "gamma": jf(o.gamma()), "theta": jf(o.theta()), "vega": jf(o.vega()),
                "vanna": jf(o.vanna()), "charm": jf(o.charm()), "lambda": jf(o.lambda()), "zomma": jf(o.zomma()), "speed": jf(o.speed()),
                "color": jf(o.colour()), "vomma": jf(o.vomma()), "ultima": jf(o.ultima()), "vega_bleed": jf(o.vega_bleed()),
                "gamma_percent": jf(o.gamma_percent()), "zomma_percent": jf(o.zomma_percent()), "zeta": jf(o.zeta()),
                "strike_delta": jf(o.strike_delta()), "strike_gamma": jf(o.strike_gamma()), "rho": jf(o.rho()), "phi": jf(o.phi()), "t": jf(o.year_fraction())})
        }
        "bachelier" => {
            let m = Bachelier::new(a("f"), a("r"), a("v"));
            let (k, z) = (f(&v["kk"]), side(v));
            if v["days"].is_null() {
                let t = f(&v["t"]);
                json!({"price": jf(m.price(k, t, z)), "delta": jf(m.delta(k, t, z)), "gamma": jf(m.gamma(k, t, z)), "theta": jf(m.theta(k, t, z)), "vega": jf(m.vega(k, t, z))})
            } else {
                let o = AnalyticOptionPricer::new(EuropeanVanillaOption::new(k, expiry(v), z), m);
                json!({"price": jf(o.price()), "delta": jf(o.delta()), "gamma": jf(o.gamma()), "theta": jf(o.theta()), "vega": jf(o.vega())})
            }
        }
        "heston" => {
            let m = Heston93::new(a("s"), a("v"), a("r"), a("q"), a("rho"), a("kappa"), a("theta"), a("sigma"));
            let (k, z) = (f(&v["kk"]), side(v));
            if v["days"].is_null() {
                let t = f(&v["t"]);
                json!({"price": jf(m.price(k, t, z)), "delta": jf(m.delta(k, t, z)), "gamma": jf(m.gamma(k, t, z)), "rho": jf(m.rho(k, t, z))})
            } else {
                let o = AnalyticOptionPricer::new(EuropeanVanillaOption::new(k, expiry(v), z), m);
                json!({"price": jf(o.price()), "delta": jf(o.delta()), "gamma": jf(o.gamma()), "rho": jf(o.rho())})
            }
        }
        o => panic!("harness: model {o}"),
    }
}

/// an exercise style whose window covers the option's life
fn style(v: &Value, d0: time::Date, d1: time::Date) -> ExerciseFlag {
    match s(&v["style"]) {
        "european" => ExerciseFlag::European { expiry: d1 },
        "american" if v["window"] == json!("all") => ExerciseFlag::American { start: time::Date::MIN, end: time::Date::MAX },
        "american" if v["window"] == json!("wide") => ExerciseFlag::American { start: d0 - time::Duration::days(i(&v["early"])), end: d1 },
        "american" => ExerciseFlag::American { start: d0, end: d1 },
        o => panic!("harness: style {o}"),
    }
}

fn dates(v: &Value) -> (Option<time::Date>, time::Date, time::Date) {
    let d0 = if v["today"] == json!(true) { RustQuant_time::today() } else { date!(2023 - 11 - 20) };
    (if v["today"] == json!(true) { None } else { Some(d0) }, d0, d0 + time::Duration::days(i(&v["days"])))
}

fn fd(v: &Value) -> Value {
    let a = |n: &str| f(&v["a"][n]);
    let (e, d0, d1) = dates(v);
    let p = finite_difference_pricer::FiniteDifferencePricer::new(a("s"), a("k"), a("r"), a("v"), e, d1, i(&v["m"]) as u32, i(&v["n"]) as u32, side(v), style(v, d0, d1));
    json!({"v": jf(match s(&v["method"]) { "explicit" => p.explicit(), "implicit" => p.implicit(), "crank_nicolson" => p.crank_nicolson(), o => panic!("harness: method {o}") })})
}

/// the Longstaff-Schwartz price, twice, and the standard normal draws of its seeds
fn lsm(v: &Value) -> Value {
    use rand::prelude::*;
    let a = |n: &str| f(&v["a"][n]);
    let (e, _, d1) = dates(v);
    let (m, n, seed) = (i(&v["m"]) as u32, i(&v["n"]) as usize, v["seed"].as_u64());
    let p = LongstaffScwhartzPricer::new(a("s"), a("k"), a("r"), a("v"), e, d1, m, side(v), n as u64, seed);
    let draw = |sd: u64| { let mut g = StdRng::seed_from_u64(sd); let d = rand_distr::Normal::<f64>::new(0.0, 1.0).unwrap(); (0..n).map(|_| d.sample(&mut g)).collect::<Vec<f64>>() };
    let z: Vec<Vec<Value>> = match (v["draws"] == json!(true), seed) {
        (true, Some(sd)) => (0..m as u64).map(|j| draw(sd.wrapping_add(j)).into_iter().map(jf).collect()).collect(),
        _ => vec![],
    };
    json!({"v": jf(p.generate_price()), "again": jf(p.generate_price()), "z": z})
}

/// implied volatilities of the quotes of one option
fn ivs(v: &Value) -> Value {
    let a = |n: &str| f(&v["a"][n]);
    let (k, z) = (f(&v["kk"]), side(v));
    let each = |g: &dyn Fn(f64) -> f64| v["p"].as_array().unwrap().iter().map(|p| { let p = f(p); guard_f(|| g(p)) }).collect::<Vec<_>>();
    match s(&v["m"]) {
        "bs" => json!({"iv": each(&|p| implied_volatility(p, a("s"), k, f(&v["t"]), a("r"), z)), "iv2": each(&|p| implied_volatility::iv(p, a("s"), k, f(&v["t"]), a("r"), z))}),
        "gbsm" => { let o = gbsm_struct(v); json!({"iv": each(&|p| o.implied_volatility(p))}) }
        "bachelier" => {
            let m = Bachelier::new(a("f"), a("r"), a("v"));
            if v["days"].is_null() {
                let t = f(&v["t"]);
                json!({"iv": each(&|p| m.iv(p, k, t, z)), "atm": each(&|p| m.atm_vol(p, t)), "atm_price": jf(m.atm_price(t))})
            } else {
                let o = AnalyticOptionPricer::new(EuropeanVanillaOption::new(k, expiry(v), z), m);
                json!({"iv": each(&|p| o.iv(p)), "atm": each(&|p| o.atm_vol(p)), "atm_price": jf(o.atm_price())})
            }
        }
        "sabr" => json!({"vol": jf(Sabr02::new(a("f"), a("alpha"), a("beta"), a("rho"), a("nu")).volatility(k, f(&v["t"])))}),
        o => panic!("harness: model {o}"),
    }
}

fn main() {
    serve(|v| match s(&v["k"]) {
        "iv" => guard(|| ivs(v)).unwrap_or_else(panicked),
        "fd" => guard(|| fd(v)).unwrap_or_else(panicked),
        "lsm" => guard(|| lsm(v)).unwrap_or_else(panicked),
        "greeks" => guard(|| greeks(v)).unwrap_or_else(panicked),
        "pay" => {
            let c = build(&v["c"]);
            json!({"v": v["paths"].as_array().unwrap().iter().map(|p| { let p = fs(p); guard_f(|| pay(&c, &p)) }).collect::<Vec<_>>()})
        }
        "mc" => {
            let cfg = procs::config(&v["cfg"]);
            let rates = fs(&v["r"]);
            with_proc!(&v["proc"], |p| {
                let t = guard(|| p.generate(&cfg)).map(procs::traj).unwrap_or_else(panicked);
                let prices: Vec<Vec<Value>> = v["c"].as_array().unwrap().iter()
                    .map(|c| { let c = build(c); rates.iter().map(|r| guard_f(|| mc(&c, &p, &cfg, *r))).collect() }).collect();
                json!({"t": t, "v": prices})
            })
        }
        o => panic!("harness: {o}"),
    });
}
