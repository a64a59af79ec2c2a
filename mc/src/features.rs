//! C17: compares the observations of all feature configurations (built and run by check.py).
use mc_core::run::{ENGINE, Obs, Run};
use serde_json::{Value, json};

const EPS: f64 = f64::EPSILON;

type Lines = Vec<(String, String, Vec<f64>)>;
fn load(path: &str) -> Lines {
    std::fs::read_to_string(path)
        .unwrap_or_else(|e| panic!("{ENGINE} {path}: {e}"))
        .lines()
        .filter_map(|l| {
            let (name, rest) = l.rsplit_once('|')?;
            let mut w = rest.split(' ');
            let kind = w.next()?.to_string();
            Some((name.to_string(), kind, w.map(|x| f64::from_bits(u64::from_str_radix(x, 16).unwrap())).collect()))
        })
        .collect()
}

/// how far two backends may be apart
fn agree(name: &str, kind: &str, a: &[f64], b: &[f64]) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{} values instead of {}", b.len(), a.len()));
    }
    let n = a.len() as f64;
    let top = a.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let total: f64 = a.iter().map(|x| x.abs()).sum();
    // closed forms and tables; everything else is an eigenvalue computation
    let direct = name.starts_with("GaussLegendre") || name.starts_with("GaussChebyshev") || name.starts_with("composite");
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        let ok = (kind != "exact" && x == y) || match kind {
            "exact" => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
            "node" => (x - y).abs() <= if direct { 8.0 * EPS } else { 100.0 * EPS * (top + 1.0) },
            "weight" => (x - y).abs() <= if direct { 16.0 * EPS * x.abs() } else { 1e-12 * total + 1e-7 * x.abs().min(1e-5 * total) },
            "integral" => (x - y).abs() <= if direct { (n + 10.0) * 40.0 * EPS * (x.abs() + 10.0) } else { 1e-10 * (x.abs() + 1.0) },
            "pow" => (x.is_nan() && y.is_nan()) || (x - y).abs() <= 16.0 * EPS * x.abs() + 1e-322,
            _ => panic!("{ENGINE} kind {kind}"),
        };
        if !ok {
            return Err(format!("{kind} {i} is {y:?} instead of {x:?}"));
        }
    }
    Ok(())
}

pub fn c17(r: &Run) {
    let path = std::env::var("MC_FEATURES").unwrap_or_else(|_| panic!("{ENGINE} MC_FEATURES is not set"));
    let list: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let reference = list.iter().find(|x| x["features"] == "libm").expect("reference configuration");
    if let Some(e) = reference["error"].as_str() {
        r.cases(&[()], |_| "features libm".into(), |_, o| o.fail(format!("features libm: {e}"), ""));
        return;
    }
    let base = load(reference["output"].as_str().unwrap());
    if base.len() < 1000 {
        panic!("{ENGINE} the reference configuration shows almost nothing");
    }
    r.rule(format!("all 56 valid subsets of {{libm, std, rayon, serde, rkyv, zerocopy}} built and run (every rule family and degree range, parameter arithmetic, parallel entry points, promised traits), {} observation lines each, compared with the default configuration up to backend rounding; 9 combinations more with other settings (optimised for size or not at all, aborting on panics, vector instructions), 9 optimised ones without assertions; 8 subsets as no_std programs; 8 subsets without backend, which must be refused. A case is one configuration", base.len()));
    r.cases(&list, |x| format!("features {}", x["features"].as_str().unwrap()), |x, o: &mut Obs| {
        let feats = x["features"].as_str().unwrap();
        let repro = format!("cargo build --no-default-features --features {feats}");
        o.eval();
        o.distinct(&feats);
        if let Some(e) = x["error"].as_str() {
            return o.fail(format!("features {feats}: {e}"), repro);
        }
        let Some(out) = x["output"].as_str() else {
            o.count("compile_only_configurations", 1);
            return;
        };
        let got = load(out);
        if got.len() != base.len() {
            return o.fail(format!("features {feats}: {} observations instead of {}", got.len(), base.len()), repro);
        }
        let mut bitwise = 0;
        for (b, g) in base.iter().zip(&got) {
            o.eval();
            if b.0 != g.0 || b.1 != g.1 {
                return o.fail(format!("features {feats}: shows {} where the default configuration shows {}", g.0, b.0), repro);
            }
            bitwise += b.2.iter().zip(&g.2).all(|(x, y)| x.to_bits() == y.to_bits()) as u64;
            if let Err(e) = agree(&b.0, &b.1, &b.2, &g.2) {
                return o.fail(format!("features {feats}: {}: {e}", b.0), repro);
            }
        }
        o.count("observation_lines", base.len() as u64);
        o.count("lines_bitwise_equal_to_default", bitwise);
        o.sample(json!({"features": feats, "lines": base.len(), "bitwise_equal": bitwise, "first": format!("{} {:?}", base[0].0, base[0].2)}));
    });
}
