// Reverse-mode automatic differentiation: programs (C08) and tape histories (C09).
#[path = "../common.rs"]
mod common;
use common::*;
use serde_json::{json, Value};
use RustQuant_autodiff::*;

fn unary<'v>(o: &str, a: Variable<'v>) -> Variable<'v> {
    match o {
        "abs" => a.abs(),
        "acos" => a.acos(),
        "acosh" => a.acosh(),
        "asin" => a.asin(),
        "asinh" => a.asinh(),
        "atan" => a.atan(),
        "atanh" => a.atanh(),
        "cbrt" => a.cbrt(),
        "cos" => a.cos(),
        "cosh" => a.cosh(),
        "exp" => a.exp(),
        "exp2" => a.exp2(),
        "exp_m1" => a.exp_m1(),
        "ln" => a.ln(),
        "ln_1p" => a.ln_1p(),
        "log10" => a.log10(),
        "log2" => a.log2(),
        "recip" => a.recip(),
        "sin" => a.sin(),
        "sinh" => a.sinh(),
        "sqrt" => a.sqrt(),
        "tan" => a.tan(),
        "tanh" => a.tanh(),
        "erf" => a.erf(),
        "erfc" => a.erfc(),
        "neg" => -a,
        _ => panic!("harness: unary {o}"),
    }
}
fn vv<'v>(o: &str, a: Variable<'v>, b: Variable<'v>) -> Variable<'v> {
    match o {
        "add" => a + b,
        "sub" => a - b,
        "mul" => a * b,
        "div" => a / b,
        "powf" => a.powf(b),
        "powi" => a.powi(b),
        "log" => a.log(b),
        "min" => Min::min(&a, b),
        "max" => Max::max(&a, b),
        _ => panic!("harness: vv {o}"),
    }
}
fn avv<'v>(o: &str, a: Variable<'v>, b: Variable<'v>) -> Variable<'v> {
    let mut a = a;
    match o {
        "add" => a += b,
        "sub" => a -= b,
        "mul" => a *= b,
        "div" => a /= b,
        _ => panic!("harness: avv {o}"),
    }
    a
}
fn vs<'v>(o: &str, a: Variable<'v>, c: f64) -> Variable<'v> {
    match o {
        "add" => a + c,
        "sub" => a - c,
        "mul" => a * c,
        "div" => a / c,
        "powf" => a.powf(c),
        "powi" => a.powi(c as i32),
        "log" => a.log(c),
        "min" => Min::min(&a, c),
        "max" => Max::max(&a, c),
        _ => panic!("harness: vs {o}"),
    }
}
fn avs<'v>(o: &str, a: Variable<'v>, c: f64) -> Variable<'v> {
    let mut a = a;
    match o {
        "add" => a += c,
        "sub" => a -= c,
        "mul" => a *= c,
        "div" => a /= c,
        _ => panic!("harness: avs {o}"),
    }
    a
}
fn sv<'v>(o: &str, c: f64, a: Variable<'v>) -> Variable<'v> {
    match o {
        "add" => c + a,
        "sub" => c - a,
        "mul" => c * a,
        "div" => c / a,
        "powf" => Powf::powf(&c, a),
        "powi" => Powi::powi(&c, a),
        "log" => Log::log(&c, a),
        "min" => Min::min(&c, a),
        "max" => Max::max(&c, a),
        _ => panic!("harness: sv {o}"),
    }
}
/// Refs are 1-based into vs_.
fn instr<'v>(t: &Value, r: &[Variable<'v>]) -> Variable<'v> {
    let t = t.as_array().unwrap();
    let at = |v: &Value| r[u(v) as usize - 1];
    match s(&t[0]) {
        "u" => unary(s(&t[1]), at(&t[2])),
        "vv" => vv(s(&t[1]), at(&t[2]), at(&t[3])),
        "avv" => avv(s(&t[1]), at(&t[2]), at(&t[3])),
        "vs" => vs(s(&t[1]), at(&t[2]), f(&t[3])),
        "avs" => avs(s(&t[1]), at(&t[2]), f(&t[3])),
        "sv" => sv(s(&t[1]), f(&t[2]), at(&t[3])),
        "sum" => t[1].as_array().unwrap().iter().map(at).sum(),
        "prod" => t[1].as_array().unwrap().iter().map(at).product(),
        o => panic!("harness: instr {o}"),
    }
}

fn program(c: &Value) -> Value {
    let g = Graph::new();
    let ins = g.vars(&fs(&c["in"]));
    let mut r = ins.clone();
    for t in c["p"].as_array().unwrap() {
        let v = instr(t, &r);
        r.push(v);
    }
    // every intermediate result, differentiated after the whole program ran
    Value::Array(r[ins.len()..].iter().map(|v| json!([jf(v.value()), jfs(&v.accumulate().wrt(&ins))])).collect())
}

/// The same gradient through every form of wrt.
fn wrt_forms(c: &Value) -> Value {
    let g = Graph::new();
    let ins = g.vars(&fs(&c["in"]));
    let mut r = ins.clone();
    for t in c["p"].as_array().unwrap() {
        let v = instr(t, &r);
        r.push(v);
    }
    let a = r[r.len() - 1].accumulate();
    let (x, y, z) = (ins[0], ins[1], ins[2]);
    let m = r[3 + (r.len() - 3) / 2];
    let q = vec![m, z, x, x, y, m, z];
    let one: Vec<f64> = q.iter().map(|v| a.wrt(v)).collect();
    let none: Vec<variable::Variable> = vec![];
    let forms = json!([jfs(&one), jfs(&a.wrt(&q)), jfs(&a.wrt(&q[..])), jfs(&a.wrt([m, z, x, x, y, m, z])),
                       jfs(&a.wrt(&[m, z, x, x, y, m, z])), a.wrt(&none).len() + a.wrt(&none[..]).len()]);
    json!([
        jfs(&[a.wrt(&x), a.wrt(&y), a.wrt(&z)]),
        jfs(&a.wrt(&ins)),
        jfs(&a.wrt(&ins[..])),
        jfs(&a.wrt([x, y, z])),
        jfs(&a.wrt(&[x, y, z])),
        // order and repetition of the requested variables are respected, intermediate results included
        forms
    ])
}

fn snapshot(g: &Graph) -> Vec<Vertex> {
    g.vertices.borrow().clone()
}
fn nans(a: &[Vertex], b: &[Vertex]) -> bool {
    a.len() <= b.len()
        && a.iter().zip(b).all(|(x, y)| {
            x.parents == y.parents && x.partials.iter().zip(&y.partials).all(|(p, q)| p == q || (p.is_nan() && q.is_nan()))
        })
}

/// A history over two graphs.  Events report what the tape looks like afterwards.
fn tape(c: &Value) -> Value {
    let gs = [Graph::new(), Graph::with_capacity(u(&c["cap"]) as usize)];
    let mut vars: Vec<Variable> = vec![]; // by specification number, 1-based
    let mut out = vec![];
    for t in c["h"].as_array().unwrap() {
        let a = t.as_array().unwrap();
        let before = [snapshot(&gs[0]), snapshot(&gs[1])];
        let vals: Vec<(usize, f64)> = vars.iter().map(|v| (v.index(), v.value())).collect();
        let k = |v: &Value| u(v) as usize - 1;
        let mut extra = json!(null);
        let mut newvars: Vec<Variable> = vec![];
        let mut ok = true;
        match s(&a[0]) {
            "var" => newvars.push(gs[k(&a[1])].var(f(&a[2]))),
            "vars" => newvars.extend(gs[k(&a[1])].vars(&fs(&a[2]))),
            "op" => match guard(|| instr(&a[1], &vars)) {
                Ok(v) => newvars.push(v),
                Err(m) => {
                    if m.starts_with("harness:") {
                        eprintln!("{m}");
                        std::process::exit(101);
                    }
                    ok = false
                }
            },
            "acc" => {
                let v = vars[k(&a[1])];
                let g = v.accumulate();
                let again = v.accumulate();
                extra = json!({"n": g.len(), "self": jf(g[v.index()]), "later": g[v.index() + 1..].iter().all(|x| *x == 0.0),
                    "same": g.iter().zip(&again).all(|(p, q)| p == q || (p.is_nan() && q.is_nan())),
                    // which of the live variables of its graph have a non-zero (or undefined) adjoint
                    "nan": vars.iter().enumerate().filter(|(_, w)| std::ptr::eq(w.graph(), v.graph()) && w.index() < g.len() && g[w.index()].is_nan())
                        .map(|(i, _)| i + 1).collect::<Vec<_>>(),
                    "nz": vars.iter().enumerate().filter(|(_, w)| std::ptr::eq(w.graph(), v.graph()) && w.index() < g.len() && g[w.index()] != 0.0)
                        .map(|(i, _)| i + 1).collect::<Vec<_>>()});
            }
            "clear" => {
                gs[k(&a[1])].clear();
                extra = json!({"empty": gs[k(&a[1])].is_empty()});
            }
            "zero" => {
                gs[k(&a[1])].zero();
                let v = snapshot(&gs[k(&a[1])]);
                extra = json!({"allzero": v.iter().all(|x| x.partials == [0.0, 0.0]),
                    "shape": v.len() == before[k(&a[1])].len() && v.iter().zip(&before[k(&a[1])]).all(|(x, y)| x.parents == y.parents)});
            }
            "join" => {
                let (p, q) = (k(&a[1]), k(&a[2]));
                let j = gs[p].join(&gs[q]);
                let v = snapshot(&j);
                let n = before[p].len();
                extra = json!({"len": j.len(), "head": nans(&before[p], &v), "tail": v[n..].iter().zip(&before[q])
                        .all(|(x, y)| x.parents[0] == y.parents[0] + n && x.parents[1] == y.parents[1] + n)});
            }
            o => panic!("harness: tape {o}"),
        }
        let after = [snapshot(&gs[0]), snapshot(&gs[1])];
        let topo = |v: &[Vertex]| v.iter().enumerate().all(|(i, x)| {
            x.parents.iter().zip(&x.partials).all(|(p, d)| *p < i || (*p == i && *d == 0.0))
        });
        let reset = |n: usize| (s(&a[0]) == "clear" || s(&a[0]) == "zero") && k(&a[1]) == n;
        out.push(json!({"ok": ok, "len": [gs[0].len(), gs[1].len()],
            "lenv": [after[0].len(), after[1].len()],
            "prefix": (0..2).all(|n| reset(n) || nans(&before[n], &after[n])),
            "leaves": newvars.iter().all(|v| {
                let x = &after[if std::ptr::eq(v.graph(), &gs[0]) { 0 } else { 1 }][v.index()];
                x.partials == [0.0, 0.0]
            }),
            "topo": topo(&after[0]) && topo(&after[1]),
            "kept": vars.iter().zip(&vals).all(|(v, (i, x))| v.index() == *i && (v.value() == *x || x.is_nan())),
            "idx": newvars.iter().map(|v| v.index()).collect::<Vec<_>>(),
            "ing": newvars.iter().map(|v| if std::ptr::eq(v.graph(), &gs[0]) {1} else {2}).collect::<Vec<_>>(),
            "val": newvars.iter().map(|v| jf(v.value())).collect::<Vec<_>>(),
            "x": extra}));
        vars.extend(newvars);
    }
    Value::Array(out)
}

/// The picture of the tape a history leaves on its first graph, naming some of its variables.
fn draw(c: &Value) -> Value {
    let g = Graph::new();
    let mut vars: Vec<Variable> = vec![];
    for a in c["h"].as_array().unwrap() {
        match s(&a[0]) {
            "var" => vars.push(g.var(f(&a[2]))),
            "vars" => vars.extend(g.vars(&fs(&a[2]))),
            _ => vars.push(instr(&a[1], &vars)),
        }
    }
    let named: Vec<Variable> = c["named"].as_array().unwrap().iter().map(|i| vars[u(i) as usize]).collect();
    let tape: Vec<Value> = snapshot(&g).iter().map(|v| json!({"parents": v.parents, "partials": v.partials.iter().map(|x| jf(*x)).collect::<Vec<_>>()})).collect();
    json!({"tape": tape, "vars": named.iter().map(|v| json!({"i": v.index(), "val": jf(v.value())})).collect::<Vec<_>>(), "dot": RustQuant_autodiff::graphviz::graphviz(&g, &named)})
}

/// Handles as values (C38): after every event, what every handle says of itself and of the others.
fn handles(c: &Value) -> Value {
    let g = [Graph::new(), Graph::new()];
    let mut h: Vec<Variable> = vec![];
    let mut out = vec![];
    for e in c["ops"].as_array().unwrap() {
        let k = u(&e[1]) as usize - 1;
        let before = (g[0].len(), g[1].len());
        let r = guard(|| {
            match s(&e[0]) {
                "var" => h.push(g[k].var(f(&e[2]))),
                "copy" => { let v = h[k]; h.push(v) }
                "neg" => { let v = -h[k]; h.push(v) }
                "round" => h[k].round(),
                o => panic!("harness: {o}"),
            }
            let ord = |o: Option<std::cmp::Ordering>| match o { None => "none", Some(std::cmp::Ordering::Less) => "less", Some(std::cmp::Ordering::Equal) => "equal", _ => "greater" };
            let all = |w: &dyn Fn(&Variable, &Variable) -> Value| h.iter().map(|a| h.iter().map(|b| w(a, b)).collect::<Vec<_>>()).collect::<Vec<_>>();
            json!({
                "is": h.iter().map(|v| json!({"finite": v.is_finite(), "infinite": v.is_infinite(), "nan": v.is_nan(), "normal": v.is_normal(), "subnormal": v.is_subnormal(),
                    "zero": v.is_zero(), "positive": v.is_positive(), "negative": v.is_negative(), "signum": jf(v.signum())})).collect::<Vec<_>>(),
                "v": h.iter().map(|v| jf(v.value())).collect::<Vec<_>>(), "f": h.iter().map(|v| jf(v.value)).collect::<Vec<_>>(),
                "text": h.iter().map(|v| v.to_string()).collect::<Vec<_>>(),
                "at": h.iter().map(|v| json!([if std::ptr::eq(v.graph(), &g[0]) { 1 } else { 2 }, v.index()])).collect::<Vec<_>>(),
                "eq": all(&|a, b| json!(a == b)), "ne": all(&|a, b| json!(!(a != b))),
                "veq": all(&|a, b| json!(*a == b.value())),
                "cmp": all(&|a, b| json!(ord(Some(a.cmp(b))))), "pcmp": all(&|a, b| json!(ord(a.partial_cmp(b)))),
                "lt": all(&|a, b| json!(a < b)), "ge": all(&|a, b| json!(a >= b)),
                "len": [g[0].len(), g[1].len()], "grew": (g[0].len(), g[1].len()) != before,
            })
        });
        match r {
            Ok(v) => out.push(v),
            Err(m) => { out.push(panicked(m)); break; }
        }
    }
    Value::Array(out)
}

fn main() {
    serve(|c| {
        let r = guard(|| match s(&c["k"]) {
            "prog" => program(c),
            "wrt" => wrt_forms(c),
            "tape" => tape(c),
            "draw" => draw(c),
            "handles" => handles(c),
            o => panic!("harness: kind {o}"),
        });
        match r {
            Ok(v) => v,
            Err(m) => {
                if m.starts_with("harness:") {
                    eprintln!("{m}");
                    std::process::exit(101);
                }
                panicked(m)
            }
        }
    });
}
