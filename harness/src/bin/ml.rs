// k nearest neighbours (C18), regressions (C19), activations (C28).
#[path = "../common.rs"]
mod common;
use common::*;
use nalgebra::{DMatrix, DVector};
use serde_json::{json, Value};
use RustQuant_autodiff::{Accumulate, Gradient, Graph};
use RustQuant_ml::*;

fn mat(v: &Value, ncol: usize) -> DMatrix<f64> {
    let rows = v.as_array().unwrap();
    DMatrix::from_row_slice(rows.len(), ncol, &rows.iter().flat_map(|r| fs(r)).collect::<Vec<_>>())
}
fn vec(v: &Value) -> DVector<f64> {
    DVector::from_vec(fs(v))
}
fn res(r: Result<Vec<f64>, String>) -> Value {
    r.map_or_else(panicked, |v| jfs(&v))
}
fn knn(c: &Value) -> Value {
    let nc = u(&c["nc"]) as usize;
    let metric = match s(&c["m"]) {
        "euclidean" => Metric::Euclidean,
        "manhattan" => Metric::Manhattan,
        _ => Metric::Minkowski(i(&c["p"]) as i32),
    };
    json!({"l": res(guard(|| KNearestClassifier::new(mat(&c["x"], nc), vec(&c["y"]), metric).predict(&mat(&c["q"], nc), &(u(&c["n"]) as usize))))})
}
fn out(r: Result<(f64, DVector<f64>, DVector<f64>), String>) -> Value {
    match r {
        Ok((i, c, p)) => json!({"i": jf(i), "c": jfs(c.as_slice()), "p": jfs(p.as_slice())}),
        Err(m) => json!({"err": m}),
    }
}
fn flat<T>(r: Result<Result<T, String>, String>) -> Result<T, String> {
    r.unwrap_or_else(|m| Err(format!("panicked: {m}")))
}
fn regress(c: &Value) -> Value {
    let nc = u(&c["nc"]) as usize;
    let (x, y, q) = (mat(&c["x"], nc), vec(&c["y"]), mat(&c["q"], nc));
    let e = |e: RustQuant_error::RustQuantError| e.to_string();
    let mut o = json!({});
    for (n, d) in [("none", Decomposition::None), ("qr", Decomposition::QR), ("svd", Decomposition::SVD)] {
        o[n] = out(flat(guard(|| {
            let f = LinearRegressionInput::new(x.clone(), y.clone()).fit(d).map_err(e)?;
            let p = f.predict(q.clone()).map_err(e)?;
            Ok((f.intercept, f.coefficients, p))
        })));
    }
    let (tol, max) = (1e-13, 20000);
    for (n, icept) in [("1", true), ("0", false)] {
        for (k, l) in fs(&c["lam"]).into_iter().enumerate() {
            o[format!("ridge{n}{k}")] = out(flat(guard(|| {
                let f = RidgeRegressionInput::new(x.clone(), y.clone(), l, icept, max, tol).fit().map_err(e)?;
                let p = f.predict(q.clone()).map_err(e)?;
                Ok((f.intercept, f.coefficients, p))
            })));
            o[format!("lasso{n}{k}")] = out(flat(guard(|| {
                let f = LassoInput::new(x.clone(), y.clone(), l, icept, max, tol).fit().map_err(e)?;
                let p = f.predict(q.clone()).map_err(e)?;
                Ok((f.intercept, f.coefficients, p))
            })));
        }
    }
    o
}
fn logit(c: &Value) -> Value {
    let nc = u(&c["nc"]) as usize;
    let (x, y) = (mat(&c["x"], nc), vec(&c["y"]));
    if !c["b"].is_null() {
        let o = LogisticRegressionOutput { coefficients: vec(&c["b"]), iterations: 0 };
        return json!({
            "p": res(guard(|| o.predict_proba(&x).as_slice().to_vec())), "l": res(guard(|| o.predict(&x).as_slice().to_vec())),
            "mis": guard_f(|| o.score_misclassification(&y, &o.predict(&x))), "ce": guard_f(|| o.score_cross_entropy(&y, &o.predict_proba(&x))),
        });
    }
    match flat(guard(|| LogisticRegressionInput::new(x.clone(), y.clone()).fit(LogisticRegressionAlgorithm::IRLS, 1e-10).map_err(|e| e.to_string()))) {
        Ok(f) => json!({"b": jfs(f.coefficients.as_slice()), "n": f.iterations}),
        Err(m) => json!({"err": m}),
    }
}
fn activation(c: &Value) -> Value {
    let xs = fs(&c["x"]);
    macro_rules! go {
        ($($m:ident)*) => {
            match s(&c["f"]) {
                $(stringify!($m) => {
                    let v = DVector::from_vec(xs.clone());
                    json!({
                        "f": xs.iter().map(|x| guard_f(|| ActivationFunction::$m(x))).collect::<Vec<_>>(),
                        "v": res(guard(|| ActivationFunction::$m(&v).as_slice().to_vec())),
                        "ad": xs.iter().map(|x| res(guard(|| {
                            let g = Graph::new();
                            let z = g.var(*x);
                            let w = ActivationFunction::$m(&z);
                            vec![w.value, w.accumulate().wrt(&z)]
                        }))).collect::<Vec<_>>(),
                    })
                })*
                o => panic!("harness: activation {o}"),
            }
        };
    }
    go!(sigmoid identity logistic relu gelu tanh softplus gaussian)
}
fn main() {
    serve(|c| match s(&c["k"]) {
        "knn" => knn(c),
        "regress" => regress(c),
        "logit" => logit(c),
        "act" => activation(c),
        o => panic!("harness: ml {o}"),
    });
}
