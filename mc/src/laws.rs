//! C18: identities between integrals. C19: nested integration.
use crate::exact::EPS;
use crate::grid;
use crate::integ::{Model, fams_c07};
use crate::rules::*;
use mc_core::dd::DD;
use mc_core::run::{Obs, Run};
use serde_json::json;

pub enum Any {
    G(Fam, usize, Box<dyn Rule>),
    N(Nc, u32, NcRule),
}
impl Any {
    pub fn new(s: &Spec) -> Any {
        match *s {
            Spec::G(f, n) => Any::G(f, n, f.build(n)),
            Spec::N(k, n) => Any::N(k, n, k.build(n)),
        }
    }
    pub fn integrate(&self, a: f64, b: f64, f: &mut dyn FnMut(f64) -> f64) -> f64 {
        match self {
            Any::G(_, _, r) => r.integrate(a, b, f),
            Any::N(_, _, r) => r.integrate(a, b, f),
        }
    }
    #[cfg(feature = "full")]
    pub fn par_integrate(&self, a: f64, b: f64, f: &(dyn Fn(f64) -> f64 + Sync)) -> f64 {
        match self {
            Any::G(_, _, r) => r.par_integrate(a, b, f),
            Any::N(_, _, r) => r.par_integrate(a, b, f),
        }
    }
    pub fn model(&self, a: f64, b: f64) -> Model {
        match self {
            Any::G(f, _, r) => Model::gauss(*f, r.pairs(), a, b),
            Any::N(k, n, _) => Model::nc(*k, *n, a, b),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Spec {
    G(Fam, usize),
    N(Nc, u32),
}
impl Spec {
    pub fn key(&self) -> String {
        match self {
            Spec::G(f, n) => format!("{} n={n}", f.key()),
            Spec::N(k, n) => format!("{} n={n}", k.key()),
        }
    }
    pub fn ctor(&self) -> String {
        match self {
            Spec::G(f, n) => f.ctor(*n),
            Spec::N(k, n) => k.ctor(*n),
        }
    }
    fn symmetric(&self) -> bool {
        match self {
            Spec::G(Fam::Jacobi(a, b), _) => a == b,
            Spec::G(f, _) => f.finite(),
            Spec::N(..) => true,
        }
    }
}

/// (name, function, bound on |f|, bound on |f'|) valid on [-R, R] for the bounds used here (R <= 12)
type Fun = (&'static str, fn(f64) -> f64, f64, f64);
pub const FUNS: [Fun; 6] = [
    ("1", |_| 1.0, 1.0, 0.0),
    ("x", |x| x, 12.0, 1.0),
    ("x^3 - 2 x^2 + 0.25", |x| (x - 2.0) * x * x + 0.25, 2100.0, 500.0),
    ("|x - 0.3|", |x| (x - 0.3).abs(), 13.0, 1.0),
    ("sin(5 x) + 2", |x| (5.0 * x).sin() + 2.0, 3.0, 5.0),
    ("1 / (1 + x^2)", |x| 1.0 / (1.0 + x * x), 1.0, 1.0),
];
const BND: [(f64, f64); 9] = [(-1.0, 1.0), (0.0, 1.0), (3.0, -2.0), (-2.0, 0.5), (7.0, 10.0), (0.1, 0.3), (-10.0, 10.0), (-1.0, -0.9), (2.0, 2.0 + 1e-3)];

/// powers of two: scaling by them is exact until the results are denormal
const TINY: f64 = f64::from_bits((1023 - 1000) << 52);
const TINIER: f64 = f64::from_bits((1023 - 1022) << 52);
const HUGE: f64 = f64::from_bits((1023 + 900) << 52);

fn tol(m: &Model, f: &Fun, a: f64, b: f64) -> f64 {
    let sw: f64 = m.w.iter().map(|w| w.abs()).sum();
    (m.ops + 30.0) * EPS * sw * m.scale.abs() * (f.2 + f.3 * (a.abs() + b.abs())) * 4.0
}

pub fn c18(r: &Run) {
    let mut specs: Vec<Spec> = vec![];
    let gmax = r.pick(64, 120);
    for f in fams_c07().into_iter().filter(|f| f.finite()) {
        for n in (1..=gmax).chain(r.pick(vec![100, 101, 128, 200], vec![127, 128, 200, 256, 300])) {
            specs.push(Spec::G(f, n));
        }
    }
    for k in NCS {
        for n in (1..=r.pick(200, 500)).chain([1000, 4097]) {
            specs.push(Spec::N(k, n));
        }
    }
    specs.reverse();
    r.rule(format!("7 finite-domain rules (10 Jacobi/other parameterisations), degrees 1..={gmax} and larger, {} pairs of bounds, {} integrands: reversal, empty interval, linearity over 5 coefficient pairs, affine substitution over 10 maps; a case is one (rule, degree)", BND.len(), FUNS.len()));
    r.cases(&specs, |s| s.key(), |s, o| {
        let rule = Any::new(s);
        let fail = |o: &mut Obs, e: String| o.fail(format!("{}: {e}", s.key()), format!("let rule = {};", s.ctor()));
        o.distinct(&s.key());
        for (a, b) in BND {
            let m = rule.model(a, b);
            let vals: Vec<f64> = FUNS.iter().map(|f| rule.integrate(a, b, &mut |x| f.1(x))).collect();
            for (i, f) in FUNS.iter().enumerate() {
                let t = tol(&m, f, a, b);
                let v = vals[i];
                o.eval();
                if s.symmetric() {
                    let back = rule.integrate(b, a, &mut |x| f.1(x));
                    if !((v + back).abs() <= t) {
                        return fail(o, format!("integral of {} from {a:?} to {b:?} is {v:?}, reversed {back:?}", f.0));
                    }
                }
                for p in [a, b] {
                    let z = rule.integrate(p, p, &mut |x| f.1(x));
                    if z != 0.0 {
                        return fail(o, format!("integral of {} from {p:?} to {p:?} is {z:?}", f.0));
                    }
                }
                let (g, w) = (&FUNS[(i + 1) % FUNS.len()], vals[(i + 1) % FUNS.len()]);
                for (c, d) in [(1.0, 1.0), (2.0, -0.5), (-1.0, 0.0), (0.0, 3.0), (1e3, 1e-3), (TINY, 0.0), (TINIER, TINY), (HUGE, 0.0), (0.0, -HUGE)] {
                    let u = rule.integrate(a, b, &mut |x| c * f.1(x) + d * g.1(x));
                    let e = c * v + d * w;
                    o.eval();
                    if !((u - e).abs() <= f64::abs(c) * t + f64::abs(d) * tol(&m, g, a, b) + (m.ops + 30.0) * 1e-322) {
                        return fail(o, format!("integral of {c}*({}) + {d}*({}) from {a:?} to {b:?} is {u:?}, the combination of the integrals is {e:?}", f.0, g.0));
                    }
                }
                for (sh, st) in [(0.0, 2.0), (1.0, 1.0), (-0.5, 0.25), (3.0, -1.0), (0.0, -1.0), (0.125, -4.0), (0.7, 0.3), (0.0, TINY), (0.0, -1.0 / TINY), (0.0, 1e-12)] {
                    // x = sh + st u
                    let (ua, ub): (f64, f64) = ((a - sh) / st, (b - sh) / st);
                    let u = st * rule.integrate(ua, ub, &mut |u| f.1(sh + st * u));
                    o.eval();
                    let tt = t * (1.0 + (f64::abs(sh) + f64::abs(st)) / (b - a).abs()) + t * (f64::abs(st) * (ua.abs() + ub.abs()) + f64::abs(sh)) / (a.abs() + b.abs() + 1e-3) / (b - a).abs().min(1.0);
                    if !((u - v).abs() <= tt) {
                        return fail(o, format!("integral of {} from {a:?} to {b:?} is {v:?}, after substituting x = {sh:?} + {st:?} u it is {u:?}", f.0));
                    }
                }
            }
        }
        o.sample(json!({"rule": s.key(), "bounds": BND.len(), "integrands": FUNS.iter().map(|f| f.0).collect::<Vec<_>>()}));
    });
    // Mirror: swapping the bounds and the parameters of an asymmetric Jacobi rule
    let mut items = vec![];
    for (a, b) in [(0.5, 1.5), (2.0, -0.3), (-0.75, -0.25), (0.0, 3.0), (-0.5, 0.5), (10.0, 1.0)] {
        for n in 1..=r.pick(64, 120) {
            items.push((a, b, n));
        }
    }
    r.rule("asymmetric Jacobi: exchanging the bounds together with alpha and beta negates the integral");
    r.cases(&items, |(a, b, n)| format!("GaussJacobi {a:?} {b:?} n={n} reversal"), |&(al, be, n), o| {
        let (p, q) = (Any::new(&Spec::G(Fam::Jacobi(al, be), n)), Any::new(&Spec::G(Fam::Jacobi(be, al), n)));
        for (a, b) in BND {
            let m = p.model(a, b);
            for f in &FUNS {
                let (u, v) = (p.integrate(a, b, &mut |x| f.1(x)), q.integrate(b, a, &mut |x| f.1(x)));
                o.eval();
                if !((u + v).abs() <= tol(&m, f, a, b) * (4.0 + n as f64)) {
                    o.fail(format!("GaussJacobi({al:?}, {be:?}) degree {n}: integral of {} from {a:?} to {b:?} is {u:?}, the mirrored rule reversed gives {v:?}", f.0), Fam::Jacobi(al, be).ctor(n));
                    return;
                }
            }
        }
        o.distinct(&n);
    });
    // refinement
    let ns: Vec<u32> = (1..=r.pick(500, 1500)).rev().collect();
    r.rule(format!("composite refinement identities for every n <= {} and every split point (all m < n for n <= 32)", ns[0]));
    r.cases(&ns, |n| format!("refinement n={n}"), |&n, o| {
        for (a, b) in BND {
            for f in &FUNS {
                let i = |k: Nc, n: u32, a: f64, b: f64| k.build(n).integrate(a, b, &mut |x| f.1(x));
                let t = tol(&Model::nc(Nc::Simp, n, a, b), f, a, b);
                let (mid, trap, simp) = (i(Nc::Mid, n, a, b), i(Nc::Trap, n, a, b), i(Nc::Simp, n, a, b));
                let t2 = i(Nc::Trap, 2 * n, a, b);
                o.eval();
                let src = format!("integral of {} from {a:?} to {b:?}, n = {n}", f.0);
                if !((t2 - 0.5 * (trap + mid)).abs() <= t) {
                    return o.fail(format!("{src}: trapezoid with 2n cells {t2:?} is not the mean of trapezoid {trap:?} and midpoint {mid:?}"), Nc::Trap.ctor(n));
                }
                if !((simp - (2.0 * mid + trap) / 3.0).abs() <= t) {
                    return o.fail(format!("{src}: Simpson {simp:?} is not (2 midpoint {mid:?} + trapezoid {trap:?}) / 3"), Nc::Simp.ctor(n));
                }
                let splits: Vec<u32> = if n <= 32 { (1..n).collect() } else { vec![1, n / 3, n / 2, n - 1] };
                for s in splits {
                    let c = a + (b - a) * s as f64 / n as f64;
                    for (k, whole) in [(Nc::Mid, mid), (Nc::Trap, trap), (Nc::Simp, simp)] {
                        let parts = i(k, s, a, c) + i(k, n - s, c, b);
                        o.eval();
                        if !((whole - parts).abs() <= 3.0 * t) {
                            return o.fail(format!("{src}: {} over the whole interval {whole:?}, split after {s} cells {parts:?}", k.key()), k.ctor(n));
                        }
                    }
                }
            }
        }
        o.distinct(&n);
    });
}

// ---------------------------------------------------------------------------------------------------------------------

const F2: fn(f64, f64) -> f64 = |x, y| (0.3 * x + 0.2).cos() * (1.0 + 0.5 * y) + 0.1 * x * y * y;

/// iterated weighted sum: (value, sum of absolute values)
fn iterated(outer: &Any, inner: &Any, ob: (f64, f64), ib: &dyn Fn(f64) -> (f64, f64), f: &dyn Fn(f64, f64) -> f64) -> (f64, f64) {
    let m = outer.model(ob.0, ob.1);
    let (mut s, mut abs) = (DD::new(0.0), 0.0);
    for (x, w) in m.at.iter().zip(&m.w) {
        let (c, d) = ib(*x);
        let mi = inner.model(c, d);
        let mut t = DD::new(0.0);
        for (y, v) in mi.at.iter().zip(&mi.w) {
            let z = f(*x, *y);
            t = t + DD::new(*v) * DD::new(z);
            abs += (w * v * z * m.scale * mi.scale).abs();
        }
        s = s + DD::new(*w) * (t * DD::new(mi.scale));
    }
    ((s * DD::new(m.scale)).f(), abs)
}

pub fn c19(r: &Run) {
    let mut specs = vec![];
    for n in r.pick(vec![1usize, 2, 3, 5], vec![1, 2, 3, 4, 5, 8, 16]) {
        for f in fams_c07() {
            specs.push(Spec::G(f, n));
        }
        for k in NCS {
            specs.push(Spec::N(k, n as u32));
        }
    }
    let mut items = vec![];
    for o in &specs {
        for i in &specs {
            items.push((*o, *i));
        }
    }
    let modes: &[&str] = if cfg!(feature = "full") { &["seq/seq", "par/seq", "seq/par", "par/par"] } else { &["seq/seq"] };
    r.rule(format!("every ordered pair of {} (rule, degree) specifications, constant and outer-dependent inner bounds, modes {modes:?}: the value against the iterated weighted sum, one innermost call per pair of nodes; a case is one pair", specs.len()));
    type Bd = (&'static str, fn(f64) -> (f64, f64));
    let inner_bounds: [Bd; 3] = [("(-1, 1)", |_| (-1.0, 1.0)), ("(0, x)", |x| (0.0, x)), ("(x, 2)", |x| (x, 2.0))];
    r.cases(&items, |(a, b)| format!("{} over {}", a.key(), b.key()), |(os, is), o| {
        let (outer, inner) = (Any::new(os), Any::new(is));
        let same = os == is;
        o.distinct(&(os.key(), is.key()));
        for (bn, ib) in &inner_bounds {
            for (a, b) in [(-1.0, 1.0), (0.5, 3.0)] {
                let (want, abs) = iterated(&outer, &inner, (a, b), ib, &F2);
                let inner = if same { &outer } else { &inner };
                let ncalls = (outer.model(a, b).at.len() * inner.model(0.0, 1.0).at.len()) as u64;
                for mode in modes {
                    let (got, calls) = nested(mode, &outer, inner, (a, b), ib);
                    o.eval();
                    let t = 400.0 * EPS * (abs + 1e-3) * 30.0;
                    if !((got - want).abs() <= t) || calls != ncalls {
                        o.fail(
                            format!("{} from {a:?} to {b:?} over {} on {bn}, {mode}: got {got:?} with {calls} innermost calls, the product rule gives {want:?} with {ncalls}", os.key(), is.key()),
                            format!("let (outer, inner) = ({}, {});", os.ctor(), is.ctor()),
                        );
                        return;
                    }
                }
            }
        }
        o.sample(json!({"outer": os.key(), "inner": is.key(), "modes": modes}));
    });
    // three levels, every triple of families at small degrees
    let small: Vec<Spec> = r.pick(vec![1usize, 2], vec![1, 2, 3]).into_iter().flat_map(|n| {
        fams_c07().into_iter().step_by(2).map(move |f| Spec::G(f, n)).chain(NCS.into_iter().map(move |k| Spec::N(k, n as u32)))
    }).collect();
    let mut items = vec![];
    for a in &small {
        for b in &small {
            for c in &small {
                items.push((*a, *b, *c));
            }
        }
    }
    r.rule(format!("every ordered triple of {} specifications, inner bounds depending on the outer variables", small.len()));
    r.cases(&items, |(a, b, c)| format!("{} over {} over {}", a.key(), b.key(), c.key()), |(s1, s2, s3), o| {
        let (r1, r2, r3) = (Any::new(s1), Any::new(s2), Any::new(s3));
        o.distinct(&(s1.key(), s2.key(), s3.key()));
        let f = |x: f64, y: f64, z: f64| (0.1 * (x + 2.0 * y)).sin() + 0.2 * z * z + 1.0;
        let mut calls = 0u64;
        let got = r1.integrate(0.0, 1.0, &mut |x| r2.integrate(-1.0, x, &mut |y| r3.integrate(y, 2.0, &mut |z| {
            calls += 1;
            f(x, y, z)
        })));
        o.eval();
        let (m1, mut want, mut abs, mut n) = (r1.model(0.0, 1.0), DD::new(0.0), 0.0, 0u64);
        for (x, u) in m1.at.iter().zip(&m1.w) {
            let m2 = r2.model(-1.0, *x);
            for (y, v) in m2.at.iter().zip(&m2.w) {
                let m3 = r3.model(*y, 2.0);
                for (z, w) in m3.at.iter().zip(&m3.w) {
                    let t = DD::new(u * m1.scale) * DD::new(v * m2.scale) * DD::new(w * m3.scale) * DD::new(f(*x, *y, *z));
                    want = want + t;
                    abs += t.f().abs();
                    n += 1;
                }
            }
        }
        if calls != n || !((got - want.f()).abs() <= 1e-11 * (abs + 1e-3)) {
            o.fail(format!("{} over {} over {}: got {got:?} in {calls} calls, expected {:?} in {n}", s1.key(), s2.key(), s3.key(), want.f()), format!("let (r1, r2, r3) = ({}, {}, {});", s1.ctor(), s2.ctor(), s3.ctor()));
        }
    });
    // towers: many levels
    let mut items: Vec<(usize, Vec<Spec>, bool)> = vec![];
    let lists = |n: usize| fams_c07().into_iter().map(|f| Spec::G(f, n)).chain(match n {
        1 => vec![Spec::N(Nc::Mid, 1)],
        2 => vec![Spec::N(Nc::Mid, 2), Spec::N(Nc::Trap, 1)],
        _ => vec![Spec::N(Nc::Mid, 3), Spec::N(Nc::Trap, 2), Spec::N(Nc::Simp, 1)],
    }).collect::<Vec<_>>();
    let ends = [r.pick(40usize, 200), r.pick(9, 13), r.pick(6, 8)];
    for (n, end) in [1usize, 2, 3].into_iter().zip(ends) {
        let l = lists(n);
        for (i, a) in l.iter().enumerate() {
            for (j, b) in l.iter().enumerate() {
                if n == 1 || i == j || r.thorough || (i + 1) % l.len() == j {
                    items.push((end, if i == j { vec![*a] } else { vec![*a, *b] }, false));
                    if cfg!(feature = "full") {
                        items.push((end.min(24), if i == j { vec![*a] } else { vec![*a, *b] }, true));
                    }
                }
            }
        }
    }
    r.rule(format!("towers of one or two alternating rules, every number of levels up to {} for rules of one sample, {} for two and {} for three", ends[0], ends[1], ends[2]));
    r.cases(&items, |(d, s, p)| format!("tower of up to {d} levels of {}{}", s.iter().map(|s| s.key()).collect::<Vec<_>>().join(" and "), if *p { ", parallel" } else { "" }), |(end, s, par), o| {
        let rules: Vec<Any> = s.iter().map(Any::new).collect();
        let models: Vec<Model> = rules.iter().map(|r| r.model(0.25, 1.25)).collect();
        fn want(m: &[Model], level: usize, depth: usize, acc: f64) -> (f64, f64) {
            if level == depth {
                return (acc, acc.abs());
            }
            let m1 = &m[level % m.len()];
            let (mut v, mut t) = (DD::new(0.0), 0.0);
            for (x, w) in m1.at.iter().zip(&m1.w) {
                let (a, b) = want(m, level + 1, depth, 0.5 * acc + x / (1.0 + level as f64));
                v = v + DD::new(*w) * DD::new(a);
                t += (w * b).abs();
            }
            ((v * DD::new(m1.scale)).f(), (t * m1.scale).abs())
        }
        fn got(r: &[Any], level: usize, depth: usize, acc: f64, par: bool, calls: &std::sync::atomic::AtomicU64) -> f64 {
            if level == depth {
                calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                return acc;
            }
            let f = |x: f64| got(r, level + 1, depth, 0.5 * acc + x / (1.0 + level as f64), par, calls);
            #[cfg(feature = "full")]
            if par {
                return r[level % r.len()].par_integrate(0.25, 1.25, &f);
            }
            r[level % r.len()].integrate(0.25, 1.25, &mut |x| f(x))
        }
        for depth in 1..=*end {
            let (w, abs) = want(&models, 0, depth, 1.0);
            let n = (0..depth).map(|k| models[k % models.len()].at.len() as u64).product::<u64>();
            let calls = Default::default();
            let v = got(&rules, 0, depth, 1.0, *par, &calls);
            o.eval();
            o.distinct(&(depth, *par));
            let calls = calls.into_inner();
            if calls != n || !((v - w).abs() <= 200.0 * EPS * depth as f64 * (abs + 1e-300)) {
                return o.fail(format!("{depth} levels of {}: got {v:?} in {calls} innermost calls, expected {w:?} in {n}", s.iter().map(|s| s.key()).collect::<Vec<_>>().join(" and ")), format!("let rules = [{}];", s.iter().map(|s| s.ctor()).collect::<Vec<_>>().join(", ")));
            }
        }
    });
    // product orthonormality: exact for every pair of orders up to 2n-1
    let nmax = r.pick(4, 8);
    let gs: Vec<Fam> = fams_c07();
    let mut items = vec![];
    for &f in &gs {
        for &g in &gs {
            items.push((f, g));
        }
    }
    r.rule(format!("products of orthonormal polynomials of every order up to 2n-1 in each variable, n <= {nmax} (odd asymmetric Jacobi excluded: known finding of C04)"));
    r.cases(&items, |(f, g)| format!("monomials {} over {}", f.key(), g.key()), |&(f, g), o| {
        let (rf, rg) = (grid::rec(f, 2 * nmax), grid::rec(g, 2 * nmax));
        let bad = |f: Fam, n: usize| matches!(f, Fam::Jacobi(a, b) if a != b && n % 2 == 1 && n >= 3);
        for n in 1..=nmax {
            let k = if n > 1 { n - 1 } else { n };
            if bad(f, n) || bad(g, k) {
                continue;
            }
            let (u, v) = (f.build(n), g.build(k));
            for p in 0..2 * n {
                for q in 0..2 * k {
                    let got = u.integrate(-1.0, 1.0, &mut |x| {
                        let px = rf.values(p, x)[p].f();
                        v.integrate(-1.0, 1.0, &mut |y| px * rg.values(q, y)[q].f())
                    });
                    let mm = rf.mu0.f() * rg.mu0.f();
                    let want = if p == 0 && q == 0 { mm } else { 0.0 };
                    o.eval();
                    if !((got - want).abs() <= 1e-9 * mm * ((1 + p) * (1 + q)) as f64) {
                        o.fail(format!("{} degree {n} over {} degree {k}: orders ({p}, {q}) integrate to {got:?} instead of {want:?}", f.key(), g.key()), format!("let (u, v) = ({}, {});", f.ctor(n), g.ctor(k)));
                        return;
                    }
                }
            }
        }
        o.distinct(&(f.key(), g.key()));
    });
}

fn nested(mode: &str, outer: &Any, inner: &Any, (a, b): (f64, f64), ib: &(dyn Fn(f64) -> (f64, f64) + Sync)) -> (f64, u64) {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    let calls = AtomicU64::new(0);
    let g = |x: f64, y: f64| {
        calls.fetch_add(1, Relaxed);
        F2(x, y)
    };
    let inner_seq = |x: f64| {
        let (c, d) = ib(x);
        inner.integrate(c, d, &mut |y| g(x, y))
    };
    #[cfg(feature = "full")]
    let inner_par = |x: f64| {
        let (c, d) = ib(x);
        inner.par_integrate(c, d, &|y| g(x, y))
    };
    let v = match mode {
        "seq/seq" => outer.integrate(a, b, &mut |x| inner_seq(x)),
        #[cfg(feature = "full")]
        "par/seq" => outer.par_integrate(a, b, &inner_seq),
        #[cfg(feature = "full")]
        "seq/par" => outer.integrate(a, b, &mut |x| inner_par(x)),
        #[cfg(feature = "full")]
        "par/par" => outer.par_integrate(a, b, &inner_par),
        _ => unreachable!(),
    };
    (v, calls.load(Relaxed))
}
