// Calendars, dates, rolling, schedules, day counts.  Dates travel as Julian day numbers.
#[path = "../common.rs"]
mod common;
use common::*;
use serde_json::{json, Value};
use time::{Date, Month, Weekday};
use RustQuant_time::{calendar::*, date_rolling::DateRollingConvention as Roll, day_counting::DayCountConvention as Dcc, *};

fn market(n: &str) -> Market {
    match n {
        "None" => Market::None,
        "Weekends" => Market::Weekends,
        "Argentina" => Market::Argentina,
        "Australia" => Market::Australia,
        "Austria" => Market::Austria,
        "Botswana" => Market::Botswana,
        "Brazil" => Market::Brazil,
        "Canada" => Market::Canada,
        "Chile" => Market::Chile,
        "China" => Market::China,
        "CzechRepublic" => Market::CzechRepublic,
        "Denmark" => Market::Denmark,
        "Finland" => Market::Finland,
        "France" => Market::France,
        "Germany" => Market::Germany,
        "HongKong" => Market::HongKong,
        "Hungary" => Market::Hungary,
        "Iceland" => Market::Iceland,
        "India" => Market::India,
        "Indonesia" => Market::Indonesia,
        "Israel" => Market::Israel,
        "Italy" => Market::Italy,
        "Mexico" => Market::Mexico,
        "Netherlands" => Market::Netherlands,
        "NewZealand" => Market::NewZealand,
        "Singapore" => Market::Singapore,
        "Switzerland" => Market::Switzerland,
        "UnitedKingdom" => Market::UnitedKingdom,
        "UnitedStates" => Market::UnitedStates,
        _ => panic!("harness: market {n}"),
    }
}
fn roll(n: &str) -> Roll {
    match n {
        "Actual" => Roll::Actual,
        "Following" => Roll::Following,
        "ModifiedFollowing" => Roll::ModifiedFollowing,
        "Preceding" => Roll::Preceding,
        "ModifiedPreceding" => Roll::ModifiedPreceding,
        "ModifiedRolling" => Roll::ModifiedRolling,
        _ => panic!("harness: roll {n}"),
    }
}
const ROLLS: [&str; 6] = ["Actual", "Following", "ModifiedFollowing", "Preceding", "ModifiedPreceding", "ModifiedRolling"];
fn dcc(n: &str) -> Dcc {
    match n {
        "One_One" => Dcc::One_One,
        "Actual_Actual_ICMA" => Dcc::Actual_Actual_ICMA,
        "Actual_Actual_ISDA" => Dcc::Actual_Actual_ISDA,
        "Actual_Actual_AFB" => Dcc::Actual_Actual_AFB,
        "Actual_365_Fixed" => Dcc::Actual_365_Fixed,
        "Actual_365_Actual" => Dcc::Actual_365_Actual,
        "Actual_365_Leap" => Dcc::Actual_365_Leap,
        "Actual_360" => Dcc::Actual_360,
        "Actual_364" => Dcc::Actual_364,
        "Actual_365_25" => Dcc::Actual_365_25,
        "Actual_366" => Dcc::Actual_366,
        "No_Leap_360" => Dcc::No_Leap_360,
        "No_Leap_365" => Dcc::No_Leap_365,
        "Thirty_360_ISDA" => Dcc::Thirty_360_ISDA,
        "Thirty_E_360" => Dcc::Thirty_E_360,
        "Thirty_E_360_ISDA" => Dcc::Thirty_E_360_ISDA,
        "Thirty_E_365" => Dcc::Thirty_E_365,
        "Thirty_E_Plus_360" => Dcc::Thirty_E_Plus_360,
        "Thirty_U_360" => Dcc::Thirty_U_360,
        _ => panic!("harness: dcc {n}"),
    }
}
fn jd(v: &Value) -> Date {
    Date::from_julian_day(i(v) as i32).unwrap()
}
fn n(d: Date) -> Value {
    json!(d.to_julian_day())
}
fn month(v: &Value) -> Month {
    Month::try_from(i(v) as u8).unwrap()
}
fn wd(w: Weekday) -> u8 {
    w.number_from_monday()
}
fn dates(v: &Value) -> Vec<Date> {
    v.as_array().unwrap().iter().map(jd).collect()
}

type R<T> = Result<T, String>;
fn res_date<E>(r: Result<Date, E>) -> Value {
    r.map_or(json!("err"), n)
}

fn call(cal: &mut Option<Calendar>, op: &Value) -> R<Value> {
    let a = op.as_array().unwrap();
    guard(|| {
        let c = cal.as_mut();
        match s(&a[0]) {
            // calendar object
            "addh" => {
                c.unwrap().add_holiday(jd(&a[1]));
                json!(true)
            }
            "addhs" => {
                c.unwrap().add_holidays(dates(&a[1]));
                json!(true)
            }
            "clone" => {
                let d = c.unwrap().clone();
                *cal = Some(d);
                json!(true)
            }
            "extra" => json!(c.unwrap().extra_holidays().iter().map(|d| d.to_julian_day()).collect::<Vec<_>>()),
            "bd" => json!(c.unwrap().is_business_day(jd(&a[1]))),
            "hol" => json!(c.unwrap().is_holiday(jd(&a[1]))),
            "wkd" => json!(c.unwrap().is_weekend(jd(&a[1]))),
            "roll" => n(c.unwrap().roll_date(jd(&a[1]), roll(s(&a[2])))),
            "rolls" => json!(c.unwrap().roll_dates(dates(&a[1]), roll(s(&a[2]))).iter().map(|d| d.to_julian_day()).collect::<Vec<_>>()),
            "cdc" => json!(c.unwrap().calendar_day_count(jd(&a[1]), jd(&a[2]))),
            "bdc" => json!(c.unwrap().business_day_count(jd(&a[1]), jd(&a[2]))),
            "cdcs" => json!(c.unwrap().calendar_day_counts(dates(&a[1]))),
            "bdcs" => json!(c.unwrap().business_day_counts(dates(&a[1]))),
            "dcf" => jf(c.unwrap().day_count_factor(jd(&a[1]), jd(&a[2]), dcc(s(&a[3])))),
            "dcfs" => jfs(&c.unwrap().day_count_factors(dates(&a[1]), dcc(s(&a[2])))),
            "sched" => {
                // [sched, dates, roll, dcc]: the factor from "today" to the first date is replaced by
                // whether it equals the convention's factor for (today, first)
                let cc = c.unwrap();
                let ds = dates(&a[1]);
                let t0 = today();
                let sc = cc.generate_schedule_from_dates(ds, roll(s(&a[2])), dcc(s(&a[3])));
                let t1 = today();
                let f0 = sc.day_count_factors[0];
                let k = dcc(s(&a[3]));
                let ok = [t0, t1].iter().any(|t| (k.day_count_factor(*t, sc.dates[0]) - f0).abs() < 1e-12);
                json!([sc.dates.iter().map(|d| d.to_julian_day()).collect::<Vec<_>>(), jfs(&sc.day_count_factors[1..]),
                       ok, format!("{:?}", sc.day_counting_convention) == format!("{:?}", k),
                       format!("{:?}", sc.date_rolling_convention) == s(&a[2]), sc.day_count_factors.len()])
            }
            "nbd" => n(next_business_day(jd(&a[1]), c.unwrap())),
            "pbd" => n(previous_business_day(jd(&a[1]), c.unwrap())),
            // whole year tables
            "holyear" => {
                let c = c.unwrap();
                let y = i(&a[1]) as i32;
                let mut d = Date::from_calendar_date(y, Month::January, 1).unwrap();
                let (mut h, mut w, mut b) = (vec![], vec![], vec![]);
                while d.year() == y {
                    if c.is_holiday(d) { h.push(d.ordinal()); }
                    if c.is_weekend(d) { w.push(d.ordinal()); }
                    if !c.is_business_day(d) { b.push(d.ordinal()); }
                    d = d.next_day().unwrap();
                }
                json!([h, w, b])
            }
            "rollyear" => {
                let c = c.unwrap();
                let y = i(&a[1]) as i32;
                let mut out = vec![];
                for r in ROLLS {
                    let mut d = Date::from_calendar_date(y, Month::January, 1).unwrap();
                    let mut v = vec![];
                    while d.year() == y {
                        v.push(c.roll_date(d, roll(r)).to_julian_day() - d.to_julian_day());
                        d = d.next_day().unwrap();
                    }
                    out.push(v);
                }
                json!(out)
            }
            // utilities
            "easter" => {
                let d = Date::from_calendar_date(i(&a[1]) as i32, Month::June, 1).unwrap();
                json!([unpack_date(d, false).5, unpack_date(d, true).5])
            }
            "unpack" => {
                let (y, m, d, w, yd, _) = unpack_date(jd(&a[1]), false);
                json!([y, m as u8, d, wd(w), yd])
            }
            "isweekend" => json!([is_weekend(jd(&a[1])), is_weekday(jd(&a[1]))]),
            "monthflags" => json!([is_first_day_of_month(jd(&a[1])), is_last_day_of_month(jd(&a[1])), is_last_day_of_february(jd(&a[1]))]),
            "range" => {
                let (x, y) = (jd(&a[1]), jd(&a[2]));
                json!([get_years_in_range(x, y), get_days_in_years_in_range(x, y), contains_leap_year(x, y),
                       days_between(x, y), leap_year_count(x, y)])
            }
            "yearfrac" => jf(year_fraction(jd(&a[1]), jd(&a[2]))),
            "seq" => json!(date_sequence(jd(&a[1]), jd(&a[2])).iter().map(|d| d.to_julian_day()).collect::<Vec<_>>()),
            "monthdays" => {
                let (y, m) = (i(&a[1]) as i32, month(&a[2]));
                json!([get_first_day_of_month(y, m).map_or(json!("err"), |w| json!(wd(w))),
                       get_last_day_of_month(y, m).map_or(json!("err"), |w| json!(wd(w))),
                       res_date(get_first_monday_of_month(y, m)), res_date(get_first_tuesday_of_month(y, m)),
                       res_date(get_first_wednesday_of_month(y, m)), res_date(get_first_thursday_of_month(y, m)),
                       res_date(get_first_friday_of_month(y, m)), res_date(get_first_saturday_of_month(y, m)),
                       res_date(get_first_sunday_of_month(y, m)),
                       res_date(get_last_monday_of_month(y, m)), res_date(get_last_tuesday_of_month(y, m)),
                       res_date(get_last_wednesday_of_month(y, m)), res_date(get_last_thursday_of_month(y, m)),
                       res_date(get_last_friday_of_month(y, m)), res_date(get_last_saturday_of_month(y, m)),
                       res_date(get_last_sunday_of_month(y, m))])
            }
            "infer" => json!(format!("{:?}", Frequency::infer_frequency(jd(&a[1]), jd(&a[2])))),
            "freqs" => {
                let l: Vec<(Frequency, isize)> = vec![
                    Frequency::Daily, Frequency::Weekly, Frequency::BiWeekly, Frequency::SemiMonthly, Frequency::Monthly,
                    Frequency::SemiQuarterly, Frequency::Quarterly, Frequency::TriAnnually, Frequency::SemiAnnually,
                    Frequency::Annually, Frequency::Zero,
                ].into_iter().map(|f| (f, f as isize)).collect();
                json!(l.iter().map(|(f, p)| json!([format!("{f:?}"), p])).collect::<Vec<_>>())
            }
            // one date against many end dates: [fac, conv, start, [ends]]
            "facs" => {
                let (k, x) = (dcc(s(&a[1])), jd(&a[2]));
                Value::Array(a[3].as_array().unwrap().iter().map(|e| guard_f(|| k.day_count_factor(x, jd(e)))).collect())
            }
            o => panic!("harness: unknown op {o}"),
        }
    })
}

fn main() {
    serve(|case| {
        let mut cal = case.get("market").map(|m| Calendar::new(market(s(m))));
        let mut res = vec![];
        for op in case["ops"].as_array().unwrap() {
            match call(&mut cal, op) {
                Ok(v) => res.push(v),
                Err(m) => {
                    if m.starts_with("harness:") {
                        eprintln!("{m}");
                        std::process::exit(101);
                    }
                    res.push(panicked(m));
                }
            }
        }
        json!({ "res": res })
    });
}
