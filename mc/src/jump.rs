//! C22: an integrand with a jump is integrated to within the weight next to the jump.
//!
//! The estimate of a step function is constant while its threshold stays between two neighbouring samples, so the
//! rule has n + 1 states per interval and visiting every gap decides the statement for every threshold.
use crate::exact::{EPS, slack};
use crate::grid;
use crate::integ::Model;
use crate::laws::{Any, Spec};
use crate::rules::*;
use mc_core::dd::{DD, lgamma};
use mc_core::run::{Obs, Run};
use serde_json::json;

fn lg(x: f64) -> f64 {
    lgamma(DD::new(x)).f()
}

/// the smaller one of the two regularised incomplete Gamma functions: (is it the lower one, value)
fn inc_gamma(a: f64, x: f64) -> (bool, f64) {
    if x <= 0.0 {
        return (true, 0.0);
    }
    let front = (a * x.ln() - x - lg(a)).exp();
    if x < a + 1.0 {
        let (mut term, mut sum) = (1.0 / a, 1.0 / a);
        for k in 1..10_000 {
            term *= x / (a + k as f64);
            sum += term;
            if term < sum * 1e-18 {
                break;
            }
        }
        (true, sum * front)
    } else {
        // Lentz
        let mut b = x + 1.0 - a;
        let mut c = 1e300;
        let mut d = 1.0 / b;
        let mut h = d;
        for i in 1..10_000 {
            let an = -(i as f64) * (i as f64 - a);
            b += 2.0;
            d = an * d + b;
            d = 1.0 / if d.abs() < 1e-290 { 1e-290 } else { d };
            c = b + an / c;
            c = if c.abs() < 1e-290 { 1e-290 } else { c };
            h *= d * c;
            if (d * c - 1.0).abs() < 2e-16 {
                break;
            }
        }
        (false, h * front)
    }
}
/// the smaller one of I_y(a, b) and its complement, from y and 1 - y
fn inc_beta(a: f64, b: f64, y: f64, z: f64, lbeta: f64) -> (bool, f64) {
    if y <= 0.0 {
        return (true, 0.0);
    }
    if z <= 0.0 {
        return (false, 0.0);
    }
    let lower = y < (a + 1.0) / (a + b + 2.0);
    let (p, q, x) = if lower { (a, b, y) } else { (b, a, z) };
    let front = (a * y.ln() + b * z.ln() - lbeta).exp() / p;
    let mut c = 1.0;
    let mut d = 1.0 - (p + q) * x / (p + 1.0);
    d = 1.0 / if d.abs() < 1e-290 { 1e-290 } else { d };
    let mut h = d;
    for m in 1..10_000 {
        let m = m as f64;
        let mut step = |t: f64| {
            d = 1.0 + t * d;
            d = 1.0 / if d.abs() < 1e-290 { 1e-290 } else { d };
            c = 1.0 + t / c;
            c = if c.abs() < 1e-290 { 1e-290 } else { c };
            h *= d * c;
            d * c
        };
        step(m * (q - m) * x / ((p + 2.0 * m - 1.0) * (p + 2.0 * m)));
        let last = step(-(p + m) * (p + q + m) * x / ((p + 2.0 * m) * (p + 2.0 * m + 1.0)));
        if (last - 1.0).abs() < 2e-16 {
            break;
        }
    }
    (lower, front * h)
}

/// The weight function's mass on both sides of a point, each with a small relative error.
struct Mass {
    fam: Fam,
    total: f64,
    lbeta: f64,
    /// relative error of the masses
    rel: f64,
}
impl Mass {
    fn new(fam: Fam, total: f64) -> Mass {
        let (lbeta, rel) = match fam {
            Fam::Jacobi(a, b) => (lg(a + 1.0) + lg(b + 1.0) - lgamma(DD::new(a) + DD::new(b) + DD::new(2.0)).f(), EPS * (256.0 + 40.0 * (a.abs() + b.abs()))),
            Fam::Laguerre(a) => (0.0, EPS * (512.0 + 40.0 * a.abs())),
            Fam::Hermite => (0.0, EPS * 512.0),
            _ => (0.0, 16.0 * EPS),
        };
        Mass { fam, total, lbeta, rel }
    }
    fn sides(&self, x: f64) -> (f64, f64) {
        let t = self.total;
        let pick = |(lower, v): (bool, f64)| if lower { (t * v, t - t * v) } else { (t - t * v, t * v) };
        match self.fam {
            Fam::Legendre => (1.0 + x.clamp(-1.0, 1.0), 1.0 - x.clamp(-1.0, 1.0)),
            Fam::Cheb1 => {
                let x = x.clamp(-1.0, 1.0);
                ((-x).acos(), x.acos())
            }
            Fam::Cheb2 => {
                // (phi - sin phi cos phi) / 2 for the angle from the nearer end
                let x = x.clamp(-1.0, 1.0);
                let phi = 2.0 * ((1.0 - x.abs()) / 2.0).sqrt().asin();
                // series where the difference cancels
                let small = if phi < 0.3 {
                    let u = 2.0 * phi;
                    let (mut term, mut sum) = (u * u * u / 6.0, u * u * u / 6.0);
                    for k in 2..12 {
                        term *= -u * u / ((2 * k) as f64 * (2 * k + 1) as f64);
                        sum += term;
                    }
                    sum / 4.0
                } else {
                    0.5 * (phi - phi.sin() * phi.cos())
                };
                if x < 0.0 { (small, t - small) } else { (t - small, small) }
            }
            Fam::Jacobi(a, b) => pick(inc_beta(b + 1.0, a + 1.0, 0.5 * (1.0 + x), 0.5 * (1.0 - x), self.lbeta)),
            Fam::Laguerre(a) => pick(inc_gamma(a + 1.0, x)),
            Fam::Hermite => {
                let (lower, v) = inc_gamma(0.5, x * x);
                let tail = 0.5 * t * if lower { 1.0 - v } else { v };
                if x < 0.0 { (tail, t - tail) } else { (t - tail, tail) }
            }
        }
    }
}

const KNOWN: &str = "jacobi-odd-middle-node-forced-to-zero";
const BND: [(f64, f64); 5] = [(-1.0, 1.0), (0.0, 1.0), (1.0, 0.0), (3.5, -2.0), (100.0, 101.5)];

/// all thresholds (one per gap), counted from both ends
fn gauss(fam: Fam, n: usize, every: usize, o: &mut Obs) {
    let rule = fam.build(n);
    let p = rule.pairs();
    if p.len() != n || p.iter().any(|p| !p.0.is_finite() || !p.1.is_finite()) {
        return o.fail(format!("{} degree {n} has {} pairs, or some that are not finite", fam.key(), p.len()), fam.ctor(n));
    }
    let large = n > 3000;
    let rec = (!large).then(|| grid::rec(fam, n));
    let total = match fam {
        Fam::Legendre => 2.0,
        Fam::Cheb1 => std::f64::consts::PI,
        Fam::Cheb2 => 0.5 * std::f64::consts::PI,
        _ => rec.as_ref().expect("only the closed forms are large").mu0.f(),
    };
    let slack: Vec<(f64, f64)> = match &rec {
        Some(r) => slack(fam, p, r),
        None => p.iter().map(|(_, w)| (16.0 * EPS, 30.0 * EPS * w + if fam == Fam::Cheb2 { 30.0 * EPS / n as f64 * w.sqrt() } else { 0.0 })).collect(),
    };
    let mass = Mass::new(fam, total);
    let trust = crate::error::trust(fam);
    // nearly all of the mass at one end: the rest is only known as the difference from the total
    let skewed = matches!(fam, Fam::Laguerre(a) if a < -0.8) || matches!(fam, Fam::Jacobi(a, b) if a.min(b) < -0.8);
    // mass on either side of every node (moved by its slack): least and most
    let side = |i: usize| {
        let (x, dx) = (p[i].0, slack[i].0);
        let (a, b) = (mass.sides(x - dx), mass.sides(x + dx));
        ((a.0, b.0), (b.1, a.1))
    };
    // prefix sums of weights and their slack from both ends
    let mut acc = vec![[0.0f64; 4]; n + 1];
    for i in 0..n {
        acc[i + 1][0] = acc[i][0] + p[i].1;
        acc[i + 1][1] = acc[i][1] + slack[i].1;
    }
    for i in (0..n).rev() {
        acc[i][2] = acc[i + 1][2] + p[i].1;
        acc[i][3] = acc[i + 1][3] + slack[i].1;
    }
    let ends = if n <= 64 { &BND[..] } else if n <= 500 { &BND[..3] } else { &BND[..2] };
    let ends = if fam.finite() { ends } else { &ends[..1] };
    for (k, &(a, b)) in ends.iter().enumerate() {
        let m = Model::gauss(fam, p, a, b);
        let s = if b < a { -1.0 } else { 1.0 };
        let scale = m.scale;
        for i in (0..=n).filter(|i| i % every == 0 || *i == n) {
            // the masses around the nodes next to the gap
            let (before, here) = (i.checked_sub(1).map(side), (i < n).then(|| side(i)));
            let t = match (i.checked_sub(1).map(|j| m.at[j]), m.at.get(i)) {
                (Some(u), Some(&v)) if (v - u) * s > 4.0 * m.tol => u + 0.5 * (v - u),
                (None, Some(&v)) => v - s * (4.0 * m.tol + v.abs() * 1e-9 + 1e-9),
                (Some(u), None) => u + s * (4.0 * m.tol + u.abs() * 1e-9 + 1e-9),
                _ => {
                    o.count("gaps_narrower_than_the_rounding_of_the_samples", 1);
                    continue;
                }
            };
            for left in [true, false] {
                let on = |x: f64| if ((x - t) * s < 0.0) == left { 1.0 } else { 0.0 };
                o.eval();
                o.distinct(&(k, i, left));
                let mut got = rule.integrate(a, b, &mut |x| on(x)) / scale;
                #[cfg(feature = "full")]
                if n <= 48 && k == 0 {
                    let par = rule.par_integrate(a, b, &on) / scale;
                    if !((par - got).abs() <= 2.0 * EPS * (n as f64 + 8.0) * got.abs()) {
                        got = par; // judged below
                    }
                }
                let (lo, hi, count, dw) = if left {
                    (before.map_or(0.0, |s| s.0.0), here.map_or(total, |s| s.0.1), i, acc[i][1])
                } else {
                    (here.map_or(0.0, |s| s.1.0), before.map_or(total, |s| s.1.1), n - i, acc[i][3])
                };
                let tol = dw + (trust + EPS * (16.0 + 2.0 * count as f64)) * hi.max(got.abs()) + mass.rel * if skewed { total } else { hi.max(lo) };
                if got >= lo - tol && got <= hi + tol {
                    o.max("deepest_use_of_the_gap", if hi - lo > 16.0 * tol { 1.0 - 2.0 * (got - lo).min(hi - got) / (hi - lo) } else { 0.0 });
                    o.count(if hi - lo > 4.0 * tol { "decided_by_the_masses" } else { "at_rounding_level" }, 1);
                    continue;
                }
                // known: the middle node is not where it belongs; does the estimate become right once it is put back?
                let mid = n / 2;
                let mut sig = "";
                if let (Fam::Jacobi(al, be), Some(r)) = (fam, &rec)
                    && n % 2 == 1
                    && n >= 3
                    && al != be
                    && p[mid].0 == 0.0
                    && let Some(root) = r.bisect(n, DD::new(p[mid - 1].0), DD::new(p[mid + 1].0))
                {
                    let root = root.f();
                    let u = (t - 0.5 * (a + b)) / scale;
                    let at = |j: usize| if j == mid { root } else { p[j].0 };
                    // nodes left of the threshold
                    let c = (0..n).filter(|j| at(*j) < u).count();
                    let (before, here) = (c.checked_sub(1).map(|j| mass.sides(at(j))), (c < n).then(|| mass.sides(at(c))));
                    let (lo, hi) = if left { (before.map_or(0.0, |s| s.0), here.map_or(total, |s| s.0)) } else { (here.map_or(0.0, |s| s.1), before.map_or(total, |s| s.1)) };
                    let got = got + p[mid].1 * (on(0.5 * (a + b) + scale * root) - on(m.at[mid]));
                    if got >= lo - 2.0 * tol && got <= hi + 2.0 * tol {
                        sig = KNOWN;
                    }
                }
                o.fail_sig(
                    sig,
                    format!(
                        "{} degree {n} from {a:?} to {b:?}: the step function that is 1 {} {t:?} has the estimate {got:?} (in units of the scale factor), but the weight function has between {lo:?} and {hi:?} there (up to the nearest nodes, rounding {tol:e})",
                        fam.key(),
                        if left { "before" } else { "beyond" }
                    ),
                    fam.ctor(n),
                );
                if sig.is_empty() {
                    return;
                }
            }
        }
        // windows: 1 between two gaps, 0 elsewhere
        if n <= 20 && k < 3 {
            let sorted = m.at.windows(2).all(|v| (v[1] - v[0]) * s > 8.0 * m.tol);
            if !sorted {
                continue;
            }
            let edge = |i: usize| if i == 0 { f64::NEG_INFINITY } else if i == n { f64::INFINITY } else { (m.at[i - 1] + 0.5 * (m.at[i] - m.at[i - 1])) * s };
            for i in 0..=n {
                for j in i..=n {
                    o.eval();
                    let got = rule.integrate(a, b, &mut |x| if x * s > edge(i) && x * s < edge(j) { 1.0 } else { 0.0 }) / scale;
                    let want: f64 = p[i..j].iter().map(|p| p.1).sum();
                    let tol = EPS * (16.0 + 2.0 * n as f64) * want;
                    if !((got - want).abs() <= tol) {
                        return o.fail(format!("{} degree {n} from {a:?} to {b:?}: the integrand that is 1 around nodes {i}..{j} and 0 elsewhere has the estimate {got:?} (in units of the scale factor) instead of {want:?}", fam.key()), fam.ctor(n));
                    }
                }
            }
        }
    }
}

fn composite(k: Nc, n: u32, o: &mut Obs) {
    let rule = Any::new(&Spec::N(k, n));
    let c = if k == Nc::Simp { 1.0 / 3.0 } else { 0.5 };
    let few = n > 300;
    for (a, b) in [(0.0, 1.0), (1.0, 0.0), (-1.0, 1.0), (2.0, -3.5), (10.0, 10.5)].into_iter().take(if few { 2 } else { 5 }) {
        let m = rule.model(a, b);
        let h = m.scale.abs();
        let s = if b < a { -1.0 } else { 1.0 };
        let len = m.at.len();
        let every = if n > 3000 { len / 61 } else { 1 };
        for i in (0..=len).filter(|i| i % every == 0 || *i == len) {
            // threshold anywhere between these two, as distances from a
            let lo = if i == 0 { 0.0 } else { (m.at[i - 1] - a) * s };
            let hi = if i == len { (b - a) * s } else { (m.at[i] - a) * s };
            let t = if i == 0 { m.at[0] - s * (4.0 * m.tol + 1e-3 * h) } else if i == len { m.at[len - 1] + s * (4.0 * m.tol + 1e-3 * h) } else { m.at[i - 1] + 0.5 * (m.at[i] - m.at[i - 1]) };
            for left in [true, false] {
                o.eval();
                o.distinct(&(a.to_bits(), b.to_bits(), i, left));
                let on = |x: f64| if ((x - t) * s < 0.0) == left { 1.0 } else { 0.0 };
                let got = rule.integrate(a, b, &mut |x| on(x)) * s;
                // the true integrals for thresholds at both ends of the gap
                let (u, v) = if left { (lo, hi) } else { ((b - a) * s - hi, (b - a) * s - lo) };
                let tol = EPS * (24.0 + 2.0 * m.ops) * (b - a).abs() + 8.0 * m.tol;
                o.count("decided_by_the_masses", 1);
                if !(got >= v - c * h - tol && got <= u + c * h + tol) {
                    return o.fail(
                        format!("{} with {n} cells from {a:?} to {b:?}: the step function that is 1 {} {t:?} has the estimate {got:?}; with the threshold between {lo:?} and {hi:?} from the start it must be within {c:.3} of a cell of the integral", k.key(), if left { "before" } else { "beyond" }),
                        k.ctor(n),
                    );
                }
            }
        }
        if n <= 12 {
            let edge = |i: usize| if i == 0 { f64::NEG_INFINITY } else if i == len { f64::INFINITY } else { (m.at[i - 1] + 0.5 * (m.at[i] - m.at[i - 1])) * s };
            for i in 0..=len {
                for j in i..=len {
                    o.eval();
                    let got = rule.integrate(a, b, &mut |x| if x * s > edge(i) && x * s < edge(j) { 1.0 } else { 0.0 });
                    let want: f64 = m.w[i..j].iter().sum::<f64>() * m.scale;
                    if !((got - want).abs() <= EPS * (16.0 + 2.0 * m.ops) * want.abs() + 8.0 * EPS * h) {
                        return o.fail(format!("{} with {n} cells from {a:?} to {b:?}: the integrand that is 1 around samples {i}..{j} and 0 elsewhere has the estimate {got:?} instead of {want:?}", k.key()), k.ctor(n));
                    }
                }
            }
        }
    }
}

pub fn c22(r: &Run) {
    let top = r.pick(260, 700);
    let mut items: Vec<(Fam, usize, usize)> = vec![];
    for f in [Fam::Legendre, Fam::Cheb1, Fam::Cheb2] {
        items.extend((1..=top).map(|n| (f, n, 1)));
        items.extend([511, 1000, 2047].map(|n| (f, n, if n > 1500 { 16 } else { 4 })));
        items.extend(r.pick(vec![20_001, 200_000], vec![20_001, 65_536, 200_000, 1_000_003]).into_iter().map(|n| (f, n, n / 47)));
    }
    let gtop = r.pick(48, 120);
    let mut fams = vec![Fam::Hermite];
    fams.extend([grid::NEAR, -0.999, -0.9, -0.5, -0.25, 0.0, 0.5, 1.0, 2.5, 7.0, 16.5, 40.0].map(Fam::Laguerre));
    let ps = [-0.99, -0.9, -0.5, -0.25, 0.0, 0.5, 1.0, 2.5, 7.0, 40.0];
    for a in ps {
        fams.extend(ps.map(|b| Fam::Jacobi(a, b)));
    }
    for &f in &fams {
        items.extend((1..=gtop).chain(r.pick(vec![75, 101, 160], vec![150, 201, 320])).map(|n| (f, n, 1)));
    }
    // the whole parameter grid with small degrees
    let small = r.pick(12, 40);
    let wide: Vec<Fam> = grid::laguerre_alphas(r.pick(false, true))
        .into_iter()
        .map(Fam::Laguerre)
        .chain(grid::jacobi_params(r.pick(false, true)).into_iter().filter(|&(a, b)| grid::jacobi_mu0_ok(a, b) && !grid::jacobi_gamma_overflow(a, b)).map(|(a, b)| Fam::Jacobi(a, b)))
        .collect();
    for &f in &wide {
        items.extend((1..=small).map(|n| (f, n, 1)));
    }
    items.reverse();
    r.rule(format!("every gap between neighbouring nodes (and both ends) of Legendre and Chebyshev rules of degree 1..={top} (every 4th to 16th of 511, 1000, 2047, and 48 of larger rules up to {}), and of Hermite, Laguerre and Jacobi rules ({} parameter choices) of degree 1..={gtop} and three larger, {} further parameter choices of degree 1..={small}: the step function with its threshold there, switched on before or beyond it, is estimated between the weight function's masses up to the two nearest nodes; up to degree 20 also every window of neighbouring nodes", r.pick(200_000, 1_000_003), fams.len(), wide.len()));
    r.cases(&items, |(f, n, _)| format!("{} n={n} jumps", f.key()), |&(f, n, every), o| {
        gauss(f, n, every, o);
        o.sample(json!({"rule": f.key(), "degree": n, "step_functions": o.evals}));
    });
    let mut items: Vec<(Nc, u32)> = vec![];
    for k in NCS {
        items.extend((1..=r.pick(300, 900)).chain([1000, 4096, 65_537, 1_000_003]).map(|n| (k, n)));
    }
    items.reverse();
    r.rule(format!("every gap between neighbouring samples of midpoint, trapezoid and Simpson rules of 1..={} cells on five intervals (and a selection of larger rules): the estimate of every step function is within half (Simpson: a third) of a cell of the integral for every threshold in the gap; up to 12 cells also every window of samples", r.pick(300, 900)));
    r.cases(&items, |(k, n)| format!("{} n={n} jumps", k.key()), |&(k, n), o| {
        composite(k, n, o);
        o.sample(json!({"rule": k.key(), "cells": n, "step_functions": o.evals}));
    });
}
