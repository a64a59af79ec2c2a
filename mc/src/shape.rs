//! C06: count, order, domain and weight validity of every constructor.
use crate::exact::{EPS, repro};
use crate::grid::*;
use crate::rules::*;
use mc_core::run::{Obs, Run};
use serde_json::json;

fn check(f: Fam, n: usize, rule: &dyn Rule, how: &str, o: &mut Obs) {
    let p = rule.pairs();
    let tag = format!("{} degree {n} built with {how}", f.key());
    o.eval();
    o.distinct(&(f.key(), n, how));
    if p.len() != n || rule.degree() != n {
        o.fail(format!("{tag}: {} pairs, degree() = {}", p.len(), rule.degree()), repro(f, n, 0));
        return;
    }
    let (overflow, extreme, asym) = match f {
        Fam::Jacobi(a, b) => (jacobi_gamma_overflow(a, b), a.max(b) > 1e75, a != b && n % 2 == 1 && n >= 3),
        _ => (false, false, false),
    };
    let (mut of_seen, mut ex_seen, mut mid_seen) = (false, false, false);
    let slack = 32.0 * EPS;
    for k in 0..n {
        let (x, w) = p[k];
        if !x.is_finite() {
            if extreme && overflow {
                ex_seen = true;
                continue;
            }
            o.fail(format!("{tag}: node {k} is {x:?}"), repro(f, n, k));
            return;
        }
        let inside = match f {
            Fam::Hermite => true,
            Fam::Laguerre(a) => x >= -slack * (4.0 * n as f64 + 2.0 * a.abs()),
            Fam::Jacobi(..) => x.abs() <= 1.0 + slack,
            _ => x.abs() <= 1.0,
        };
        if !inside {
            o.fail(format!("{tag}: node {k} = {x:?} lies outside the integration domain"), repro(f, n, k));
            return;
        }
        if k > 0 && !(x > p[k - 1].0) && !(p[k - 1].0.is_nan() && extreme && overflow) {
            let m = n / 2;
            if asym && (k == m || k - 1 == m) && p[m].0.to_bits() == 0 && m > 0 && p[m + 1].0 > p[m - 1].0 {
                mid_seen = true;
            } else if extreme && overflow {
                ex_seen = true;
            } else {
                o.fail(format!("{tag}: nodes {} = {:?} and {k} = {x:?} are not ascending", k - 1, p[k - 1].0), repro(f, n, k));
                return;
            }
        }
        let strictly = matches!(f, Fam::Legendre | Fam::Cheb1 | Fam::Cheb2);
        if !(w.is_finite() && (w > 0.0 || (!strictly && w == 0.0 && !overflow))) {
            if overflow {
                of_seen = true;
                continue;
            }
            o.fail(format!("{tag}: weight {k} is {w:?}"), repro(f, n, k));
            return;
        }
    }
    if !of_seen && !ex_seen && !(p.iter().map(|p| p.1).sum::<f64>() > 0.0) {
        o.fail(format!("{tag}: the weights do not have a positive sum"), repro(f, n, 0));
    }
    if of_seen {
        o.fail_sig("jacobi-total-weight-gamma-overflow", format!("{tag}: first weight {:?}", p[0].1), repro(f, n, 0));
    }
    if mid_seen {
        o.fail_sig("jacobi-odd-middle-node-forced-to-zero", format!("{tag}: middle node 0.0 next to {:?} and {:?}", p[n / 2 - 1].0, p[n / 2 + 1].0), repro(f, n, n / 2));
    }
    if ex_seen {
        o.fail_sig("jacobi-extreme-parameters-nan-nodes", format!("{tag}: nodes are NaN or collapse"), repro(f, n, 0));
    }
    if n == 2 {
        o.sample(json!({"rule": f.key(), "degree": n, "pairs": format!("{p:?}")}));
    }
}

fn both(f: Fam, n: usize, o: &mut Obs) {
    check(f, n, &*f.build(n), "new", o);
    #[cfg(feature = "full")]
    if let Some(r) = f.par_build(n) {
        check(f, n, &*r, "par_new", o);
    }
}

pub fn c06(r: &Run) {
    let lin = [Fam::Legendre, Fam::Cheb1, Fam::Cheb2];
    let max = r.pick(4000, 9000);
    let mut items: Vec<(Fam, usize)> = vec![];
    let mut big: Vec<usize> = r.pick(vec![(1 << 24) + 1, 2_000_003, 1 << 20, 200_003, 131_072, 65_537, 65_536, 65_535, 46_341, 32_768, 10_001, 4097], vec![(1 << 25) + 1, (1 << 24) + 1, 5_000_000, (1 << 22) + 1, 1 << 22, (1 << 20) + 1, 1 << 20, 500_001, 131_072, 65_537, 65_536, 65_535, 46_341, 46_340, 32_769, 32_768, 32_767, 20_001, 20_000, 16_385]);
    big.extend((1..=max).rev());
    for n in big {
        for f in lin {
            items.push((f, n));
        }
    }
    r.rule(format!("Legendre and both Chebyshev kinds: every degree 1..={max} and powers of two up to millions, new and (in the full build) par_new; a case is one (rule, degree, constructor)"));
    r.cases(&items, |(f, n)| format!("{} n={n}", f.key()), |&(f, n), o| both(f, n, o));

    let mut items: Vec<(Fam, Vec<usize>)> = vec![];
    items.push((Fam::Hermite, (1..=r.pick(320, 520)).collect()));
    items.push((Fam::Laguerre(0.0), (1..=r.pick(320, 520)).collect()));
    items.push((Fam::Jacobi(1.0, 1.0), (1..=r.pick(320, 520)).collect()));
    items.push((Fam::Jacobi(-0.25, 2.0), (1..=r.pick(320, 520)).collect()));
    for a in laguerre_alphas(true) {
        items.push((Fam::Laguerre(a), (1..=r.pick(80, 130)).collect()));
    }
    for (a, b) in jacobi_params(true) {
        if jacobi_mu0_ok(a, b) {
            items.push((Fam::Jacobi(a, b), (1..=r.pick(48, 80)).collect()));
        }
    }
    for a in [1e3, 1e4, 1e6, 1e16, 1e50, 1e75, 1e100, 1e150, 1e200, f64::MAX] {
        items.push((Fam::Jacobi(a, a), (1..=12).collect()));
    }
    r.rule(format!("Hermite, Laguerre and Jacobi over {} parameter choices, every degree of a range", items.len()));
    r.cases(&items, |(f, v)| format!("{} degrees 1..={}", f.key(), v.len()), |(f, v), o| {
        for &n in v {
            both(*f, n, o);
        }
    });
    // dense lattice of parameters at small degrees: no NaN, no disorder anywhere inside the parameter space
    let steps = r.pick(120, 320);
    let axis: Vec<f64> = (0..steps).map(|i| -1.0 + (i as f64 + 1.0) * 6.0 / steps as f64).collect();
    r.rule(format!("Jacobi over a {steps} x {steps} lattice of (alpha, beta) in (-1, 5], degrees 1..=6; Laguerre over the same axis, degrees 1..=12"));
    r.cases(&axis, |a| format!("lattice alpha={a:?}"), |&a, o| {
        for n in 1..=12 {
            both(Fam::Laguerre(a), n, o);
        }
        for &b in &axis {
            for n in 1..=6 {
                both(Fam::Jacobi(a, b), n, o);
            }
        }
    });
}
