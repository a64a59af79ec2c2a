//! C01-C05: every node is the true root and every weight the true Gauss weight, decided by a certificate in
//! double-double arithmetic on each enumerated (family, degree, parameters).
use crate::grid::*;
use crate::rules::*;
use mc_core::dd::*;
use mc_core::poly::Rec;
use mc_core::run::{Obs, Run};
use serde_json::json;

pub const EPS: f64 = f64::EPSILON;

/// tolerances, in multiples of the rounding-error model described in DESIGN.md
pub struct Tol {
    /// Legendre/Chebyshev: absolute node error in eps
    pub node_closed: f64,
    /// Legendre: relative weight error in eps
    pub weight_closed: f64,
    /// Golub-Welsch: node error in eps * norm(J) * sqrt(n)
    pub node_gw: f64,
    /// Golub-Welsch: eigenvector component error in eps * norm(J) * sqrt(n) / gap
    pub weight_gw: f64,
}
pub const TOL: Tol = Tol { node_closed: 8.0, weight_closed: 15.0, node_gw: 30.0, weight_gw: 6.0 };

/// Relative error allowed for Gamma(x) as a Lanczos sum in doubles, in eps: the alternating sum cancels
/// about quadratically at first and then saturates (measured maxima are a quarter of this).
fn gamma_tol(x: f64) -> f64 {
    4.0 * (8.0 + 10.0 * x * x).min(30.0 + 55.0 * x).min(1600.0)
}
/// relative error allowed for the total weight, in eps
fn mu0_tol(f: Fam) -> f64 {
    match f {
        Fam::Laguerre(a) => gamma_tol(a + 1.0),
        Fam::Jacobi(a, b) => gamma_tol(a + 1.0) + gamma_tol(b + 1.0) + gamma_tol(a + b + 2.0) + 4.0 + (a + b).abs(),
        _ => 20.0,
    }
}

pub fn repro(f: Fam, n: usize, k: usize) -> String {
    format!("let rule = {}; println!(\"{{:?}}\", rule.as_node_weight_pairs()[{k}]);", f.ctor(n))
}

/// Which indices of a rule are certified.
pub enum Which {
    All,
    Some(Vec<usize>),
}

pub fn verify(f: Fam, n: usize, pairs: &[(f64, f64)], rec: &Rec, which: &Which, o: &mut Obs) {
    if pairs.len() != n {
        o.fail(format!("{} of degree {n} has {} node-weight pairs", f.key(), pairs.len()), repro(f, n, 0));
        return;
    }
    match f {
        Fam::Cheb1 | Fam::Cheb2 => closed_cheb(f, n, pairs, which, o),
        Fam::Legendre => certify(f, n, pairs, rec, which, true, o),
        // delegated to rules with closed forms, so held to their accuracy
        Fam::Jacobi(a, b) if a == 0.0 && b == 0.0 => certify(f, n, pairs, rec, which, true, o),
        Fam::Jacobi(-0.5, -0.5) => closed_cheb(Fam::Cheb1, n, pairs, which, o),
        Fam::Jacobi(0.5, 0.5) => closed_cheb(Fam::Cheb2, n, pairs, which, o),
        _ => certify(f, n, pairs, rec, which, false, o),
    }
}

fn closed_cheb(f: Fam, n: usize, pairs: &[(f64, f64)], which: &Which, o: &mut Obs) {
    let all: Vec<usize>;
    let idx = match which {
        Which::All => {
            all = (0..n).collect();
            &all
        }
        Which::Some(v) => v,
    };
    for &k in idx {
        // ascending order: index k holds the (n-k)-th closed-form node
        let i = (n - k) as u64;
        let (x, w, dw) = match f {
            Fam::Cheb1 => {
                let (_, c) = sincospi(2 * i - 1, 2 * n as u64);
                let w = PI / DD::int(n as i64);
                (c, w, 0.0)
            }
            _ => {
                let (s, c) = sincospi(i, n as u64 + 1);
                let h = PI / DD::int(n as i64 + 1);
                // the angle itself carries a rounding error
                (c, h * s * s, (h * s).f() * 2.0)
            }
        };
        let (gx, gw) = pairs[k];
        let ex = (DD::new(gx) - x).abs().f() / EPS;
        let ew = (DD::new(gw) - w).abs().f() / (EPS * (w.f() + dw));
        o.eval();
        o.max("chebyshev_node_err_eps", ex);
        o.max("chebyshev_weight_err_eps", ew);
        if !(ex <= 8.0) {
            o.fail(
                format!("{} degree {n}: node {k} is {gx:?}, the closed form gives {:?}", f.key(), x.f()),
                repro(f, n, k),
            );
        }
        if !(ew <= 12.0) {
            o.fail(
                format!("{} degree {n}: weight {k} is {gw:?}, the closed form gives {:?}", f.key(), w.f()),
                repro(f, n, k),
            );
        }
    }
}

fn certify(f: Fam, n: usize, pairs: &[(f64, f64)], rec: &Rec, which: &Which, closed: bool, o: &mut Obs) {
    let norm = rec.norm(n).max(1e-3);
    let mu0_tol = mu0_tol(f);
    let all: Vec<usize>;
    let idx = match which {
        Which::All => {
            all = (0..n).collect();
            &all
        }
        Which::Some(v) => v,
    };
    let complete = matches!(which, Which::All);
    let sq = (n as f64).sqrt();
    let node_tol = if closed { TOL.node_closed * EPS } else { TOL.node_gw * EPS * norm * sq };
    let overflow = matches!(f, Fam::Jacobi(a, b) if jacobi_gamma_overflow(a, b));
    // the middle node of odd asymmetric Jacobi rules is a known finding; see known_findings.json
    let middle_known = |k: usize| {
        matches!(f, Fam::Jacobi(a, b) if a != b) && n % 2 == 1 && n >= 3 && k == n / 2 && pairs[k].0.to_bits() == 0
    };
    // 1. nodes
    let mut roots: Vec<Option<DD>> = vec![None; idx.len()];
    let mut middle_pending = None;
    for (j, &k) in idx.iter().enumerate() {
        let x = pairs[k].0;
        o.eval();
        if !x.is_finite() {
            o.fail(format!("{} degree {n}: node {k} is {x:?}", f.key()), repro(f, n, k));
            return;
        }
        let root = rec.refine(n, x);
        let err = root.map(|r| (r - DD::new(x)).abs().f());
        let ok = err.is_some_and(|e| e <= node_tol);
        if !ok && middle_known(k) && complete {
            middle_pending = Some(j);
            continue;
        }
        match (root, err) {
            (Some(r), Some(e)) if ok => {
                o.max(if closed { "legendre_node_err_eps" } else { "gw_node_err_rel" }, e / (node_tol / if closed { TOL.node_closed } else { TOL.node_gw }));
                roots[j] = Some(r);
            }
            _ => {
                o.fail(
                    format!(
                        "{} degree {n}: node {k} is {x:?}, which is not a root of the orthogonal polynomial; the nearest root is {:?} (allowed distance {node_tol:e})",
                        f.key(),
                        root.map(|r| r.f())
                    ),
                    repro(f, n, k),
                );
                return;
            }
        }
    }
    if complete && middle_pending.is_none() && middle_known(n / 2) {
        // 0.0 may be a root, but not the middle one
        let m = n / 2;
        if !(roots[m] > roots[m - 1] && roots[m + 1] > roots[m]) {
            middle_pending = Some(m);
        }
    }
    if let Some(j) = middle_pending {
        let r = rec.bisect(n, roots[j - 1].unwrap(), roots[j + 1].unwrap());
        let Some(r) = r else {
            o.fail(format!("{} degree {n}: the neighbours of node {} are not consecutive-but-one roots", f.key(), n / 2), repro(f, n, n / 2));
            return;
        };
        o.fail_sig(
            "jacobi-odd-middle-node-forced-to-zero",
            format!("{} degree {n}: node {} is {:?}, the root is {:?}", f.key(), n / 2, pairs[n / 2].0, r.f()),
            repro(f, n, n / 2),
        );
        roots[j] = Some(r);
    }
    let roots: Vec<DD> = roots.into_iter().map(|r| r.unwrap()).collect();
    for j in 1..roots.len() {
        if idx[j] > idx[j - 1] && !(roots[j] > roots[j - 1]) {
            o.fail(
                format!("{} degree {n}: nodes {} and {} belong to the same root {:?} or are out of order", f.key(), idx[j - 1], idx[j], roots[j].f()),
                repro(f, n, idx[j]),
            );
            return;
        }
    }
    // 2. weights at the certified roots
    const DOWN: f64 = 1.0 / 1.157920892373162e77; // 2^-256, keeps the splitting inside the double range
    let mu0 = rec.mu0.f();
    let mut overflow_seen = false;
    for (j, &k) in idx.iter().enumerate() {
        let w = pairs[k].1;
        let e = rec.eval(n, roots[j]);
        let rw = e.rel_weight();
        let want = (rw * rec.mu0.scale(DOWN)).f() / DOWN;
        o.eval();
        if overflow && !(w.is_finite() && w > 0.0) {
            overflow_seen = true;
            continue;
        }
        if !w.is_finite() {
            o.fail(format!("{} degree {n}: weight {k} is {w:?}, the Gauss weight is {want:?}", f.key()), repro(f, n, k));
            return;
        }
        if closed {
            let err = ((DD::new(w) - rw * rec.mu0).abs().f() / want) / EPS;
            o.max("legendre_weight_err_eps", err);
            if !(err <= TOL.weight_closed) {
                o.fail(format!("{} degree {n}: weight {k} is {w:?}, the Gauss weight is {want:?}", f.key()), repro(f, n, k));
                return;
            }
        } else {
            let gap = {
                let a = if j > 0 { (roots[j] - roots[j - 1]).f() } else { f64::INFINITY };
                let b = if j + 1 < roots.len() { (roots[j + 1] - roots[j]).f() } else { f64::INFINITY };
                a.min(b)
            };
            let delta1 = EPS * norm * sq / gap + EPS;
            let err = (DD::new(w * DOWN) - rw * rec.mu0.scale(DOWN)).abs().f() / DOWN;
            let v0 = rw.f().sqrt();
            // |d(v0^2)| <= 2 v0 d + d^2 ; solve for d in units of delta1 for the record
            let rem = (err / mu0 - mu0_tol * EPS * rw.f() - 4.0 * f64::MIN_POSITIVE / mu0).max(0.0);
            let d = (v0 * v0 + rem).sqrt() - v0;
            let ratio = rem / (((v0 * v0 + rem).sqrt() + v0).max(1e-300)) / delta1;
            let _ = d;
            o.max("gw_weight_err_rel", ratio);
            if !(ratio <= TOL.weight_gw) {
                o.fail(format!("{} degree {n}: weight {k} is {w:?}, the Gauss weight is {want:?}", f.key()), repro(f, n, k));
                return;
            }
        }
    }
    if overflow_seen {
        o.fail_sig(
            "jacobi-total-weight-gamma-overflow",
            format!("{} degree {n}: weights are not finite and positive (first weight {:?}) although the total weight is {mu0:?}", f.key(), pairs[0].1),
            repro(f, n, 0),
        );
    } else if complete {
        // 3. the total weight, to the accuracy of the Gamma function
        let s = pairs.iter().fold(ZERO, |s, p| s + DD::new(p.1 * DOWN));
        let err = ((s - rec.mu0.scale(DOWN)) / rec.mu0.scale(DOWN)).abs().f() / EPS;
        if !closed {
            o.max("gw_total_weight_err_of_allowed", err / (mu0_tol + 20.0 * sq));
            if !(err <= mu0_tol + 20.0 * sq) {
                o.fail(format!("{} degree {n}: the weights add up to {:?}, not {mu0:?}", f.key(), s.f() / DOWN), repro(f, n, 0));
            }
        }
    }
}

/// How far every node and weight of a rule may be off: rounding of the closed forms, or the backward error of a
/// stable symmetric eigensolver (an absolute error of the eigenvectors' first components, amplified by small gaps).
pub fn slack(fam: Fam, p: &[(f64, f64)], rec: &Rec) -> Vec<(f64, f64)> {
    let n = p.len() as f64;
    let mu0: f64 = p.iter().map(|p| p.1).sum();
    let closed = matches!(fam, Fam::Legendre | Fam::Cheb1 | Fam::Cheb2);
    (0..p.len())
        .map(|i| {
            let (x, w) = p[i];
            if closed {
                return (16.0 * EPS, 30.0 * EPS * w + if fam == Fam::Cheb2 { 30.0 * EPS / n * w.sqrt() } else { 0.0 });
            }
            let near = |j: usize| p.get(j).map_or(f64::INFINITY, |q| (q.0 - x).abs());
            let gap = near(i + 1).min(near(i.wrapping_sub(1))).max(1e-300);
            let dv = (2.0 * TOL.weight_gw * EPS * rec.norm(p.len()) * n.sqrt() / gap).min(1.0) + 16.0 * EPS;
            (2.0 * TOL.node_gw * EPS * rec.norm(p.len()), 2.0 * mu0.sqrt() * w.sqrt() * dv + mu0 * dv * dv)
        })
        .collect()
}

/// What a user sees: integrating the orthonormal polynomials p_0..p_{2n-1} gives sqrt(mu0), 0, 0, ...
pub fn moments(f: Fam, n: usize, rec2: &Rec, o: &mut Obs) {
    if let Fam::Jacobi(a, b) = f
        && ((a != b && n % 2 == 1 && n >= 3) || jacobi_gamma_overflow(a, b))
    {
        return; // known finding, judged above
    }
    // Next to the boundary of the parameter space the slope of p_1 is unbounded; the certificate above still applies.
    if matches!(f, Fam::Laguerre(a) if a < -0.99) || matches!(f, Fam::Jacobi(a, b) if a.min(b) < -0.99) {
        return;
    }
    let rule = f.build(n);
    let slack = slack(f, rule.pairs(), rec2);
    for m in 0..2 * n {
        let (mut absum, mut weights) = (0.0, 0.0);
        let pairs: Vec<(f64, f64)> = rule.pairs().to_vec();
        for ((x, w), (_, dw)) in pairs.iter().zip(&slack) {
            let v = rec2.values(m, *x)[m].f().abs();
            absum += w * v;
            weights += dw * v;
        }
        let got = rule.integrate(-1.0, 1.0, &mut |x| rec2.values(m, x)[m].f());
        let want = if m == 0 { rec2.mu0.f() } else { 0.0 };
        // node errors are amplified by the slope of p_m
        let tol = 1e-11 * (absum + rec2.mu0.f()) * (1.0 + m as f64) * (1.0 + rec2.norm(n)) + weights;
        let err = (got - want).abs();
        o.eval();
        o.max("moment_err_rel", err / (tol / 1e-11));
        if !(err <= tol) {
            o.fail(
                format!("{} degree {n}: integrating the orthonormal polynomial of degree {m} gives {got:?} instead of {want:?}", f.key()),
                format!("let rule = {}; // integrate the degree-{m} orthonormal polynomial", f.ctor(n)),
            );
            return;
        }
    }
    o.distinct(&("moments", f.key(), n));
}

fn one(f: Fam, n: usize, rec: &Rec, o: &mut Obs) {
    let rule = f.build(n);
    verify(f, n, rule.pairs(), rec, &Which::All, o);
    o.distinct(&(f.key(), n));
    if n <= 3 {
        o.sample(json!({"rule": f.key(), "degree": n, "pairs": rule.pairs().iter().map(|p| format!("{p:?}")).collect::<Vec<_>>()}));
    }
}

/// indices near both ends, around the middle, around powers of two, and evenly spread
fn sparse(n: usize, dense: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..dense.min(n)).chain(n.saturating_sub(dense)..n).collect();
    let m = n / 2;
    v.extend(m.saturating_sub(dense / 2)..(m + dense / 2).min(n));
    let mut p = 1;
    while p < n {
        v.extend([p - 1, p, n - p]);
        p *= 2;
    }
    for i in 0..dense {
        v.push(i * (n - 1) / dense);
    }
    v.retain(|&i| i < n);
    v.sort();
    v.dedup();
    v
}

fn descending(max: usize) -> Vec<usize> {
    (1..=max).rev().collect()
}

pub fn c01(r: &Run) {
    let max = r.pick(if cfg!(feature = "full") { 600 } else { 1500 }, 4000);
    let rec = Rec::legendre(max);
    r.rule(format!("every degree 1..={max} of GaussLegendre: each node refined to the root of P_n in double-double arithmetic, all n roots distinct, each weight compared with 2/((1-x^2)P_n'(x)^2) via the Christoffel sum; a case is one degree"));
    let ns = descending(max);
    r.cases(&ns, |n| format!("{} n={n}", Fam::Legendre.key()), |&n, o| one(Fam::Legendre, n, &rec, o));
    let big: Vec<usize> = r.pick(
        vec![if cfg!(feature = "full") { 30_000 } else { 100_001 }, 65_537, 32_768, 20_000, 10_001, 4096, 4095, 4097, 5000, 3001, 2048, 1023, 1024, 1025, 1999],
        vec![
            1_000_000, 1_000_001, 524_289, 524_288, 524_287, 300_000, 131_073, 131_072, 131_071, 100_001, 100_000, 65_537, 65_536, 65_535,
            50_001, 32_769, 32_768, 32_767, 20_000, 16_385, 16_384, 16_383, 10_001, 10_000, 8193, 8192, 8191, 5000, 4097, 4096, 4095, 3001,
        ],
    );
    let dense = r.pick(32, 100);
    let bmax = *big.iter().max().unwrap();
    let rec = Rec::legendre(bmax);
    r.rule(format!("degrees {big:?}: the indices nearest both ends, the middle, powers of two and {dense} evenly spread ones"));
    r.cases(&big, |n| format!("{} large n={n}", Fam::Legendre.key()), |&n, o| {
        let rule = Fam::Legendre.build(n);
        verify(Fam::Legendre, n, rule.pairs(), &rec, &Which::Some(sparse(n, dense)), o);
        o.distinct(&n);
        symmetric_rest(n, rule.pairs(), o);
    });
    let huge: Vec<usize> = r.pick(if cfg!(feature = "full") { vec![1_000_003] } else { vec![(1 << 25) + 5, 4_000_003, 1_000_003] }, vec![50_000_001, (1 << 25) + 5, (1 << 24) + 1, 10_000_000, 4_000_003, 1_000_003]);
    r.rule(format!("degrees {huge:?}: every index against the asymptotic phase of P_n, whose error is below rounding for all but the outermost indices"));
    r.cases(&huge, |n| format!("{} huge n={n}", Fam::Legendre.key()), |&n, o| {
        let rule = Fam::Legendre.build(n);
        if rule.pairs().len() != n {
            return o.fail(format!("degree {n}: {} pairs", rule.pairs().len()), repro(Fam::Legendre, n, 0));
        }
        symmetric_rest(n, rule.pairs(), o);
        o.distinct(&n);
    });
    let mm = r.pick(24, 64);
    let rec = Rec::legendre(2 * mm);
    r.cases(&descending(mm), |n| format!("{} moments n={n}", Fam::Legendre.key()), |&n, o| moments(Fam::Legendre, n, &rec, o));
}

/// On the indices of a huge rule that are not individually certified: mirror symmetry, spacing and smoothness of the weights.
fn symmetric_rest(n: usize, p: &[(f64, f64)], o: &mut Obs) {
    for k in 0..n / 2 {
        let (x, w) = p[k];
        let (y, v) = p[n - 1 - k];
        o.eval();
        if !((x + y).abs() <= 4.0 * EPS && (w - v).abs() <= 80.0 * EPS * w) {
            o.fail(format!("degree {n}: pair {k} {:?} is not the mirror image of pair {} {:?}", p[k], n - 1 - k, p[n - 1 - k]), repro(Fam::Legendre, n, k));
            return;
        }
    }
    // The phase of P_n is psi(theta) = N theta - cot(theta)/(8N) + O(1/(N theta)^3) with N = n + 1/2: the m-th root from the end has
    // psi = (m - 1/4) pi and the weight pi sin(theta)/psi'(theta).
    let nn = n as f64 + 0.5;
    for k in 0..n {
        let (x, w) = p[k];
        let m = (k + 1).min(n - k) as f64;
        let phi = std::f64::consts::PI * (m - 0.25) / nn;
        let theta = phi + 1.0 / (8.0 * nn * nn * phi.tan());
        let (s, c) = theta.sin_cos();
        let want = if k < n / 2 { -c } else { c };
        let err = ((x - want).abs() - 0.1 / (nn * m).powi(2)).max(0.0) / EPS;
        o.max("asymptotic_node_err_eps", err);
        if !(err <= 8.0) {
            o.fail(format!("degree {n}: node {k} is {x:?}, asymptotically {want:?}"), repro(Fam::Legendre, n, k));
            return;
        }
        let want = std::f64::consts::PI * s / (nn + 1.0 / (8.0 * nn * s * s));
        let err = ((w / want - 1.0).abs() - 0.1 / m.powi(4)).max(0.0) / EPS;
        o.max("asymptotic_weight_err_eps", err);
        if !(err <= 64.0) {
            o.fail(format!("degree {n}: weight {k} is {w:?}, asymptotically {want:?}"), repro(Fam::Legendre, n, k));
            return;
        }
    }
}

pub fn c05(r: &Run) {
    let max = r.pick(3000, 9000);
    r.rule(format!("both kinds, every degree 1..={max}, every index, against cos/sin of rational multiples of pi in double-double arithmetic; a case is one (kind, degree)"));
    let items: Vec<(Fam, usize)> = descending(max).into_iter().flat_map(|n| [(Fam::Cheb1, n), (Fam::Cheb2, n)]).collect();
    let dummy = Rec::chebyshev1(1);
    r.cases(&items, |(f, n)| format!("{} n={n}", f.key()), |&(f, n), o| one(f, n, &dummy, o));
    let big: Vec<(Fam, usize)> = r
        .pick(vec![4095, 4096, 4097, 5000, 5001, 10_001, 32_769, 65_535, 65_536, 65_537, 200_000, if cfg!(feature = "full") { 400_001 } else { (1 << 24) + 3 }], vec![(1 << 25) + 1, (1 << 24) + 3, 5000, 5001, 4095, 4096, 4097, 65_535, 65_536, 65_537, 1 << 20, (1 << 20) + 1, 2_000_000, 1_999_999])
        .into_iter()
        .flat_map(|n| [(Fam::Cheb1, n), (Fam::Cheb2, n)])
        .collect();
    r.rule(format!("all indices of degrees {:?}", big.iter().map(|b| b.1).collect::<Vec<_>>()));
    r.cases(&big, |(f, n)| format!("{} n={n}", f.key()), |&(f, n), o| one(f, n, &dummy, o));
    let mm = r.pick(24, 64);
    let (r1, r2) = (Rec::chebyshev1(2 * mm), Rec::chebyshev2(2 * mm));
    let items: Vec<(Fam, usize)> = descending(mm).into_iter().flat_map(|n| [(Fam::Cheb1, n), (Fam::Cheb2, n)]).collect();
    r.cases(&items, |(f, n)| format!("{} moments n={n}", f.key()), |&(f, n), o| {
        moments(f, n, if f == Fam::Cheb1 { &r1 } else { &r2 }, o)
    });
}

pub fn c02(r: &Run) {
    let mut ns = descending(r.pick(320, 520));
    ns.extend(r.pick(vec![350, 384, 400, 450, 511, 512, 513, 600, 700, 800, 900, 999, 1000, 1001, 1023, 1024, 1025], vec![550, 600, 700, 800, 900, 999, 1000, 1001, 1023, 1024, 1025, 1200, 2047, 2048, 2049]));
    ns.sort_by(|a, b| b.cmp(a));
    let rec = Rec::hermite(*ns.iter().max().unwrap());
    r.rule(format!("GaussHermite at {} degrees (all of the first hundreds, largest {}): certificate as in C01 with the eigensolver error model; a case is one degree", ns.len(), ns[0]));
    r.cases(&ns, |n| format!("{} n={n}", Fam::Hermite.key()), |&n, o| one(Fam::Hermite, n, &rec, o));
    let mm = r.pick(40, 64);
    let rec = Rec::hermite(2 * mm);
    r.cases(&descending(mm), |n| format!("{} moments n={n}", Fam::Hermite.key()), |&n, o| moments(Fam::Hermite, n, &rec, o));
}

pub fn c03(r: &Run) {
    let alphas = laguerre_alphas(true);
    let max = r.pick(40, 80);
    r.rule(format!("GaussLaguerre: {} values of alpha x every degree 1..={max}; plus degrees into the hundreds for 5 alphas; plus degree 1 over a dense lattice of alpha (node alpha+1, weight Gamma(alpha+1)); a case is one alpha, one large (alpha, degree) or one lattice segment", alphas.len()));
    r.cases(&alphas, |a| format!("GaussLaguerre alpha={a:?}"), |&a, o| {
        let rec = Rec::laguerre(2 * max, a);
        for n in 1..=max {
            one(Fam::Laguerre(a), n, &rec, o);
            if o.failed() {
                return;
            }
            if n <= 10 {
                moments(Fam::Laguerre(a), n, &rec, o);
            }
        }
    });
    let mut big: Vec<(f64, usize)> = vec![];
    for &a in &[0.0, -0.5, 3.25, -0.9, 40.0] {
        for n in r.pick((41..=200).chain([255, 256, 257, 300, 400, 500, 511, 512, 513]).collect::<Vec<usize>>(), (81..=300).chain([384, 400, 511, 512, 513, 600, 800]).collect()) {
            big.push((a, n));
        }
    }
    for &a in &[-0.5, 3.25] {
        big.extend(r.pick(vec![600, 800, 1000, 1023, 1024, 1025], vec![1000, 1001, 1023, 1024, 1025, 2048, 2049]).into_iter().map(|n| (a, n)));
    }
    big.sort_by(|a, b| b.1.cmp(&a.1));
    let lattice: Vec<f64> = (-7..=r.pick(160, 340)).map(|i| i as f64 / 8.0).chain((40..=340).map(|i| i as f64 / 2.0)).filter(|a| *a < 170.5).collect();
    r.rule(format!("GaussLaguerre over {} parameters that are multiples of an eighth or of a half, degrees 1..={} and some larger ones", lattice.len(), r.pick(12, 20)));
    r.cases(&lattice, |a| format!("GaussLaguerre lattice alpha={a:?}"), |&a, o| {
        let ns: Vec<usize> = (1..=r.pick(12, 20)).chain([33, 64]).collect();
        let rec = Rec::laguerre(64, a);
        for n in ns {
            one(Fam::Laguerre(a), n, &rec, o);
        }
    });
    r.cases(&big, |(a, n)| format!("GaussLaguerre alpha={a:?} n={n}"), |&(a, n), o| {
        one(Fam::Laguerre(a), n, &Rec::laguerre(n, a), o)
    });
    // degree 1: the Gamma function over (-1, 170.6]
    let step = r.pick(1.0 / 1024.0, 1.0 / 16384.0);
    let segs: Vec<i32> = (-1..170).collect();
    r.cases(&segs, |s| format!("GaussLaguerre degree 1 alpha in [{s}, {})", s + 1), |&s, o| {
        let mut t = 0.0;
        while t < 1.0 {
            let a = s as f64 + t;
            t += step;
            if a <= -1.0 {
                continue;
            }
            one(Fam::Laguerre(a), 1, &Rec::laguerre(1, a), o);
        }
    });
}

pub fn c04(r: &Run) {
    let params: Vec<(f64, f64)> = jacobi_params(true).into_iter().filter(|&(a, b)| jacobi_mu0_ok(a, b)).collect();
    let max = r.pick(32, 48);
    r.rule(format!("GaussJacobi: {} pairs (alpha, beta) with representable total weight x every degree 1..={max}; plus larger degrees for 8 pairs; plus degree 1 over a dense lattice; a case is one pair", params.len()));
    r.cases(&params, |(a, b)| format!("GaussJacobi alpha={a:?} beta={b:?}"), |&(a, b), o| {
        let rec = Rec::jacobi(2 * max, a, b);
        for n in 1..=max {
            one(Fam::Jacobi(a, b), n, &rec, o);
            if n <= 8 {
                moments(Fam::Jacobi(a, b), n, &rec, o);
            }
        }
    });
    let pairs = [(0.5, 1.5), (1.5, 0.5), (-0.25, -0.25), (2.0, 2.0), (-0.75, -0.25), (0.0, 3.0), (-0.9, 5.0), (-0.5, 0.5)];
    let mut big = vec![];
    for n in r.pick((33..=130).rev().chain([255, 256, 257, 300, 301]).collect::<Vec<usize>>(), (49..=301).rev().chain([384, 400, 511, 512, 513]).collect()) {
        for p in pairs {
            big.push((p, n));
        }
    }
    for p in [(0.5, 1.5), (-0.75, -0.25)] {
        big.extend(r.pick(vec![400, 511, 512, 513, 600, 800, 1000, 1023, 1024, 1025], vec![600, 800, 1000, 1001, 1023, 1024, 1025, 2048, 2049]).into_iter().map(|n| (p, n)));
    }
    big.sort_by_key(|&(_, n)| std::cmp::Reverse(n));
    r.cases(&big, |((a, b), n)| format!("GaussJacobi alpha={a:?} beta={b:?} n={n}"), |&((a, b), n), o| {
        one(Fam::Jacobi(a, b), n, &Rec::jacobi(n, a, b), o)
    });
    // lattices on which parameters, their sum or their difference are integers
    let mut lattice: Vec<(f64, f64, Vec<usize>)> = vec![];
    let top = r.pick(80, 200);
    for i in -1..=top {
        for j in -1..=top {
            lattice.push((i as f64 / 2.0, j as f64 / 2.0, if i.max(j) <= 20 { (1..=r.pick(9, 16)).collect() } else { vec![1, 2, 3, 5] }));
        }
    }
    for i in -7..=r.pick(24, 40) {
        for j in -7..=r.pick(24, 40) {
            if i % 4 != 0 || j % 4 != 0 {
                lattice.push((i as f64 / 8.0, j as f64 / 8.0, vec![1, 2, 3, 4, 7, 12]));
            }
        }
    }
    for i in 0..=r.pick(6, 12) {
        for j in 0..=r.pick(6, 12) {
            lattice.push((i as f64, j as f64, r.pick(vec![33, 50, 64, 100], vec![33, 34, 50, 63, 64, 65, 100, 101, 128])));
        }
    }
    lattice.retain(|&(a, b, _)| jacobi_mu0_ok(a, b));
    r.rule(format!("GaussJacobi over {} pairs of halves up to {}, of eighths and of integers, at some degrees each", lattice.len(), top / 2));
    r.cases(&lattice, |(a, b, n)| format!("GaussJacobi lattice alpha={a:?} beta={b:?} n={}..", n[0]), |(a, b, ns), o| {
        let rec = Rec::jacobi(*ns.last().unwrap(), *a, *b);
        for &n in ns {
            one(Fam::Jacobi(*a, *b), n, &rec, o);
        }
    });
    // degree 1 and 2 over a dense lattice
    let axis: Vec<f64> = (0..r.pick(192, 600)).map(|i| -1.0 + (i as f64 + 0.5) / r.pick(24.0, 64.0)).collect();
    r.cases(&axis, |a| format!("GaussJacobi degree 1..2 alpha={a:?}"), |&a, o| {
        for &b in &axis {
            let rec = Rec::jacobi(2, a, b);
            one(Fam::Jacobi(a, b), 1, &rec, o);
            one(Fam::Jacobi(a, b), 2, &rec, o);
        }
    });
}
