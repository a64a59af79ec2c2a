//! C07, C08: what `integrate` asks the integrand and what it makes of the answers.
use crate::exact::EPS;
use crate::rules::*;
use mc_core::dd::DD;
use mc_core::run::{Obs, Run, panic_message};
use serde_json::json;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// Bounds alphabet: equal, reversed, tiny, huge, offset, asymmetric, signed zeros, subnormal width.
pub const BOUNDS: [(f64, f64); 28] = [
    (-1.0, 1.0),
    (0.0, 1.0),
    (1.0, -1.0),
    (0.0, 0.0),
    (2.5, 2.5),
    (-3.0, 7.0),
    (7.0, -3.0),
    (1e8, 1e8 + 1.0),
    (-1e-8, 3e-8),
    (1e-300, 2e-300),
    (-1e300, 1e300),
    (0.0, 1e305),
    (-2.0, -1.0),
    (-0.0, 1.0),
    (1.0, 1.0 + 4.0 * EPS),
    (0.1, 0.3),
    (-1e5, 0.0),
    (5e-324, 1.0),
    (0.0, 1e-310),
    (1.0, 3.0),
    (100.0, 101.0),
    (-1.0, 1e6),
    (1e308, 1.25e308),
    (-1.6e308, -1e308),
    (0.0, 1.6e308),
    (7e307, -8e307),
    (1.5e308, 1.5e308),
    (5e-324, 5e-324),
];

/// one answer of the environment
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ans {
    V(f64),
    Panic,
}
pub const ANSWERS: [Ans; 10] = [
    Ans::V(0.0),
    Ans::V(1.0),
    Ans::V(-1.0),
    Ans::V(0.1),
    Ans::V(1e300),
    Ans::V(-1e300),
    Ans::V(f64::INFINITY),
    Ans::V(f64::NEG_INFINITY),
    Ans::V(f64::NAN),
    Ans::Panic,
];
const BOOM: &str = "the integrand gives up";

pub struct Call {
    pub xs: Vec<f64>,
    /// Err(message) when a panic came out
    pub res: Result<f64, String>,
}
/// call `g` with an integrand that records its argument and answers by call index
pub fn record(g: impl FnOnce(&mut dyn FnMut(f64) -> f64) -> f64, mut ans: impl FnMut(usize, f64) -> Ans) -> Call {
    let mut xs = vec![];
    let res = catch_unwind(AssertUnwindSafe(|| {
        g(&mut |x| {
            let i = xs.len();
            xs.push(x);
            match ans(i, x) {
                Ans::V(v) => v,
                Ans::Panic => panic!("{BOOM}"),
            }
        })
    }))
    .map_err(|p| panic_message(&*p));
    Call { xs, res }
}

/// 2^e, so that scaling is exact
pub fn two(e: i32) -> f64 {
    f64::powi(2.0, e)
}
/// The reference: expected sample positions and the factor each answer carries.
pub struct Model {
    pub at: Vec<f64>,
    pub w: Vec<f64>,
    /// how far a sample may be from its ideal position
    pub tol: f64,
    /// common factor
    pub scale: f64,
    /// number of rounding steps allowed per unit of sum |w f|
    pub ops: f64,
}
impl Model {
    pub fn gauss(f: Fam, pairs: &[(f64, f64)], a: f64, b: f64) -> Model {
        if f.finite() {
            let (da, db) = (DD::new(a * 0.5), DD::new(b * 0.5));
            let big = a.abs().max(b.abs());
            Model {
                at: pairs
                    .iter()
                    .map(|p| {
                        // (b/2 - a/2) x + (b/2 + a/2), scaled to avoid overflow in the splitting
                        let s = if big > 1e280 { two(-200) } else if big < 1e-250 { two(660) } else { 1.0 };
                        ((db.scale(s) - da.scale(s)) * DD::new(p.0) + (db.scale(s) + da.scale(s))).f() / s
                    })
                    .collect(),
                w: pairs.iter().map(|p| p.1).collect(),
                tol: 6.0 * EPS * big + 4.0 * 5e-324,
                scale: 0.5 * (b - a),
                ops: pairs.len() as f64 + 8.0,
            }
        } else {
            Model {
                at: pairs.iter().map(|p| p.0).collect(),
                w: pairs.iter().map(|p| p.1).collect(),
                tol: 0.0,
                scale: 1.0,
                ops: pairs.len() as f64 + 8.0,
            }
        }
    }
    pub fn nc(k: Nc, n: u32, a: f64, b: f64) -> Model {
        let s = k.samples(n as u64);
        let big = a.abs().max(b.abs());
        let sc = if big > 1e280 { two(-200) } else if big < 1e-250 { two(660) } else { 1.0 };
        let (da, w) = (DD::new(a * sc), DD::new(b * sc) - DD::new(a * sc));
        Model {
            at: s.iter().map(|(p, _)| (da + w * DD::rat(*p as i64, 2 * n as i64)).f() / sc).collect(),
            w: s.iter().map(|(_, w)| *w).collect(),
            tol: 6.0 * EPS * big + (16.0 + 4.0 * n as f64) * 5e-324,
            scale: (b - a) / n as f64,
            ops: s.len() as f64 + 12.0,
        }
    }
    /// sorted positions can be told apart
    pub fn separable(&self) -> bool {
        let mut v = self.at.clone();
        v.sort_by(f64::total_cmp);
        v.windows(2).all(|p| p[1] - p[0] > 3.0 * self.tol)
    }
    /// Matches the calls to the expected samples. Err: description of the mismatch.
    pub fn assign(&self, xs: &[f64]) -> Result<Vec<usize>, String> {
        if xs.len() != self.at.len() {
            return Err(format!("the integrand was called {} times instead of {}", xs.len(), self.at.len()));
        }
        let mut e: Vec<usize> = (0..self.at.len()).collect();
        e.sort_by(|&i, &j| self.at[i].total_cmp(&self.at[j]));
        let mut c: Vec<usize> = (0..xs.len()).collect();
        c.sort_by(|&i, &j| xs[i].total_cmp(&xs[j]));
        let mut m = vec![0; xs.len()];
        for (i, j) in c.iter().zip(&e) {
            let d = (xs[*i] - self.at[*j]).abs();
            if !(d <= self.tol) {
                return Err(format!("the integrand was evaluated at {:?}, but the nearest unmatched sample point is {:?}", xs[*i], self.at[*j]));
            }
            m[*i] = *j;
        }
        Ok(m)
    }
    /// Is `got` the weighted sum of the answers?
    pub fn judge(&self, assigned: &[usize], ans: &[f64], got: f64) -> Result<(), String> {
        if self.scale == 0.0 {
            let ok = if ans.iter().all(|v| v.is_finite()) { got == 0.0 } else { got.is_nan() };
            return if ok { Ok(()) } else { Err(format!("equal bounds gave {got:?} for answers {ans:?}")) };
        }
        let (mut pos, mut neg, mut nan) = (false, false, false);
        let (mut sum, mut abs) = (DD::new(0.0), 0.0f64);
        // keep the reference sum inside the range of the splitting
        let large = ans.iter().chain(&self.w).any(|v| v.abs() > 1e100);
        let k = if large { two(-256) } else { 1.0 };
        for (i, &v) in ans.iter().enumerate() {
            let w = self.w[assigned[i]];
            let t = w * v;
            if t.is_nan() {
                nan = true;
            } else if t.is_infinite() {
                if (t > 0.0) == (self.scale > 0.0) { pos = true } else { neg = true }
            } else {
                sum = sum + DD::new(w * k) * DD::new(v * k);
                abs += (w * k) * (v * k).abs();
            }
        }
        if nan || (pos && neg) {
            return if got.is_nan() { Ok(()) } else { Err(format!("expected NaN, got {got:?} for answers {ans:?}")) };
        }
        if pos || neg {
            let e = if pos { f64::INFINITY } else { f64::NEG_INFINITY };
            return if got == e { Ok(()) } else { Err(format!("expected {e:?}, got {got:?} for answers {ans:?}")) };
        }
        let e = sum.f() * self.scale;
        let tol = self.ops * EPS * abs * self.scale.abs();
        let g = (got * k) * k;
        // anything that small is subject to underflow
        if (g - e).abs() <= tol || (got - e / k / k).abs() <= self.ops * 1e-322 + (self.ops * EPS * (abs / k / k) * self.scale.abs()) {
            Ok(())
        } else {
            Err(format!("expected {:?}, got {got:?} for answers {ans:?}", e / k / k))
        }
    }
}

/// every sequence of length n over the alphabet, first position varying slowest
pub fn sequences(n: usize, alphabet: usize, mut f: impl FnMut(&[usize]) -> bool) {
    let mut s = vec![0usize; n];
    loop {
        if !f(&s) {
            return;
        }
        let mut i = n;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            s[i] += 1;
            if s[i] < alphabet {
                break;
            }
            s[i] = 0;
        }
    }
}

type Integ<'a> = &'a dyn Fn(&mut dyn FnMut(f64) -> f64) -> f64;

/// positions, count, total weight and (every) single-sample weight
fn samples_and_weights(what: &str, ctor: &str, m: &Model, integ: Integ, every: bool, a: f64, b: f64, o: &mut Obs) {
    let call_src = format!("let rule = {ctor}; // integrate from {a:?} to {b:?}");
    // answers small enough for the integral to be representable
    let unit = if (b - a).abs() > 1e290 { two(-40) } else { 1.0 };
    let c = record(integ, |_, _| Ans::V(unit));
    o.eval();
    o.traces += 1;
    o.states += c.xs.len() as u64 + 1;
    o.transitions += c.xs.len() as u64;
    o.distinct(&("one", what));
    let assigned = match m.assign(&c.xs) {
        Ok(v) => v,
        Err(e) => {
            o.fail(format!("{what} from {a:?} to {b:?}: {e}"), call_src);
            return;
        }
    };
    let n = m.at.len();
    let unique = m.separable();
    let judge = |r: &Result<f64, String>, ans: &[f64], o: &mut Obs| -> bool {
        let e = match r {
            Ok(v) => m.judge(&assigned, ans, *v),
            Err(p) => Err(format!("panicked: {p}")),
        };
        if let Err(e) = e {
            o.fail(format!("{what} from {a:?} to {b:?}: {}", short(&e)), call_src.clone());
            return false;
        }
        true
    };
    if !judge(&c.res, &vec![unit; n], o) || !unique {
        return;
    }
    // all different answers, in one call
    let vals: Vec<f64> = (0..n).map(|i| unit * (0.5 + ((i * 7919) % 1024) as f64 / 64.0 - if i % 3 == 0 { 9.0 } else { 0.0 })).collect();
    let c2 = record(integ, |i, _| Ans::V(vals[i.min(n - 1)]));
    o.eval();
    o.traces += 1;
    o.states += c2.xs.len() as u64;
    o.transitions += c2.xs.len() as u64;
    if c2.xs.iter().map(|x| x.to_bits()).ne(c.xs.iter().map(|x| x.to_bits())) {
        o.fail(format!("{what} from {a:?} to {b:?}: the sample points depend on the integrand's answers"), call_src);
        return;
    }
    if !judge(&c2.res, &vals, o) {
        return;
    }
    if every {
        let mut e = vec![0.0; n];
        for k in 0..n {
            e[k] = 3.0 * unit;
            let c = record(integ, |i, _| Ans::V(if i == k { 3.0 * unit } else { 0.0 }));
            o.eval();
            o.traces += 1;
            o.states += (c.xs.len() - k.min(c.xs.len())) as u64;
            o.transitions += c.xs.len() as u64;
            if !judge(&c.res, &e, o) {
                return;
            }
            e[k] = 0.0;
        }
        o.distinct(&("every", what));
    }
}
fn short(e: &str) -> String {
    if e.len() > 300 { format!("{}...", &e[..e.char_indices().nth(280).map_or(e.len(), |c| c.0)]) } else { e.into() }
}

/// every answer sequence of the environment
fn environments(what: &str, ctor: &str, m: &Model, integ: Integ, answers: &[Ans], a: f64, b: f64, o: &mut Obs) {
    let n = m.at.len();
    let src = format!("let rule = {ctor}; // integrate from {a:?} to {b:?}, the integrand answering in order:");
    let mut ok = true;
    let mut prev: Vec<usize> = vec![];
    o.states += 1;
    sequences(n, answers.len(), |s| {
        // the tree of answer prefixes: this execution adds the nodes below its common prefix with the last one
        o.states += (n - prev.iter().zip(s).take_while(|(p, q)| p == q).count()) as u64;
        prev = s.to_vec();
        let seq: Vec<Ans> = s.iter().map(|&i| answers[i]).collect();
        let c = record(integ, |i, _| *seq.get(i).unwrap_or(&Ans::V(0.0)));
        o.eval();
        o.traces += 1;
        o.transitions += c.xs.len() as u64;
        o.distinct(&(what, s));
        let fail = |o: &mut Obs, e: String| o.fail(format!("{what} from {a:?} to {b:?}, answers {seq:?}: {}", short(&e)), format!("{src} {seq:?}"));
        let first_panic = seq.iter().position(|x| *x == Ans::Panic);
        match (first_panic, &c.res) {
            (Some(k), Err(msg)) => {
                if !msg.contains(BOOM) || c.xs.len() != k + 1 {
                    fail(o, format!("after {} calls a panic with message {msg:?} came out", c.xs.len()));
                    ok = false;
                }
            }
            (Some(_), Ok(v)) => {
                fail(o, format!("the integrand panicked but the result was {v:?}"));
                ok = false;
            }
            (None, Err(msg)) => {
                fail(o, format!("panicked: {msg}"));
                ok = false;
            }
            (None, Ok(v)) => {
                let vals: Vec<f64> = seq.iter().map(|x| if let Ans::V(v) = x { *v } else { 0.0 }).collect();
                let r = m.assign(&c.xs).and_then(|asg| m.judge(&asg, &vals, *v));
                if let Err(e) = r {
                    fail(o, e);
                    ok = false;
                }
            }
        }
        o.sample(json!({"rule": what, "bounds": format!("({a:?}, {b:?})"), "answers": format!("{seq:?}"), "result": format!("{:?}", c.res)}));
        ok
    });
}

pub fn fams_c07() -> Vec<Fam> {
    vec![
        Fam::Legendre,
        Fam::Cheb1,
        Fam::Cheb2,
        Fam::Hermite,
        Fam::Laguerre(0.0),
        Fam::Laguerre(-0.5),
        Fam::Laguerre(3.7),
        Fam::Jacobi(0.0, 0.0),
        Fam::Jacobi(-0.5, -0.5),
        Fam::Jacobi(0.5, 0.5),
        Fam::Jacobi(0.5, 1.5),
        Fam::Jacobi(2.0, -0.3),
        Fam::Jacobi(1.0, 1.0),
        Fam::Jacobi(-0.75, -0.25),
    ]
}

pub fn c07(r: &Run) {
    let fams = fams_c07();
    let every = r.pick(80, 160);
    let mut items: Vec<(Fam, usize)> = vec![];
    for &f in &fams {
        let linear = matches!(f, Fam::Legendre | Fam::Cheb1 | Fam::Cheb2);
        let max = if linear { r.pick(500, 1500) } else { r.pick(100, 200) };
        for n in (1..=max).rev() {
            items.push((f, n));
        }
        if linear {
            items.extend(r.pick(vec![1000, 4097, 65_537, 200_003], vec![2047, 2048, 4097, 65_537, 200_003, 1_000_000]).into_iter().map(|n| (f, n)));
        }
    }
    r.rule(format!("{} rules x degrees x {} pairs of bounds: call count, multiset of sample points, the weighted sum for constant and all-different answers, and for every single-sample answer at degrees <= {every}", fams.len(), BOUNDS.len()));
    r.cases(&items, |(f, n)| format!("{} n={n} samples", f.key()), |&(f, n), o| {
        let rule = f.build(n);
        let bounds: &[(f64, f64)] = if f.finite() { &BOUNDS } else { &BOUNDS[..1] };
        for (i, &(a, b)) in bounds.iter().enumerate() {
            let m = Model::gauss(f, rule.pairs(), a, b);
            let what = format!("{} degree {n}", f.key());
            samples_and_weights(&what, &f.ctor(n), &m, &|g| rule.integrate(a, b, g), n <= every && (i < 3 || n <= 12), a, b, o);
            if o.failed() {
                return;
            }
        }
    });
    let depth = r.pick(5, 6);
    let mut items: Vec<(Fam, usize, usize)> = vec![];
    for &f in &fams {
        for n in 1..=depth {
            for b in if f.finite() { vec![0usize, 6, 3] } else { vec![0] } {
                items.push((f, n, b));
            }
        }
    }
    items.reverse();
    r.rule(format!("every sequence of integrand answers over {{0, 1, -1, 0.1, +-1e300, +-inf, NaN, panic}} (6 of these at degree {depth}) in call order for every degree 1..={depth} and 3 pairs of bounds; a case is one (rule, degree, answer sequence)"));
    r.cases(&items, |(f, n, b)| format!("{} n={n} bounds#{b} environments", f.key()), |&(f, n, bi), o| {
        let rule = f.build(n);
        let (a, b) = BOUNDS[bi];
        let m = Model::gauss(f, rule.pairs(), a, b);
        let ans: &[Ans] = if n >= depth { &[Ans::V(0.0), Ans::V(-1.0), Ans::V(0.1), Ans::V(f64::INFINITY), Ans::V(f64::NAN), Ans::Panic] } else { &ANSWERS };
        let before = rule.integrate(a, b, &mut |x| x * x + 0.5).to_bits();
        environments(&format!("{} degree {n}", f.key()), &f.ctor(n), &m, &|g| rule.integrate(a, b, g), ans, a, b, o);
        if rule.integrate(a, b, &mut |x| x * x + 0.5).to_bits() != before {
            o.fail(format!("{} degree {n} gives a different result after integrands that panicked", f.key()), f.ctor(n));
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------------

fn nc_check(k: Nc, n: u32, rule: &NcRule, every: bool, bounds: &[(f64, f64)], o: &mut Obs) {
    for &(a, b) in bounds {
        let m = Model::nc(k, n, a, b);
        samples_and_weights(&format!("{} degree {n}", k.key()), &k.ctor(n), &m, &|g| rule.integrate(a, b, g), every, a, b, o);
        if o.failed() {
            return;
        }
    }
}

pub fn c08(r: &Run) {
    let max = r.pick(600, 1500);
    let every = r.pick(64, 160);
    let mut items: Vec<(Nc, u32)> = vec![];
    for n in (1..=max).rev() {
        for k in NCS {
            items.push((k, n));
        }
    }
    for n in r.pick(vec![1000u32, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 10_001, 65_535, 65_536, 65_537, 100_003], vec![2048, 4095, 4096, 4097, 10_001, 65_535, 65_536, 65_537, 100_003, 1 << 20]) {
        for k in NCS {
            items.push((k, n));
        }
    }
    r.rule(format!("3 rules, every degree 1..={max} and values around powers of two, {} pairs of bounds: call count, multiset of sample points against the composite grid, composite weights (every single sample at degrees <= {every})", BOUNDS.len()));
    r.cases(&items, |(k, n)| format!("{} n={n} samples", k.key()), |&(k, n), o| {
        let rule = k.build(n);
        if rule.degree() != n || k.from_nz(n).degree() != n {
            o.fail(format!("{} built with degree {n} reports degree {}", k.key(), rule.degree()), k.ctor(n));
            return;
        }
        let bounds: &[(f64, f64)] = if n <= 40 { &BOUNDS } else if n <= 20_000 { &BOUNDS[..9] } else { &BOUNDS[1..2] };
        nc_check(k, n, &rule, n <= every, if n <= every && n > 8 { &bounds[..3] } else { bounds }, o);
        nc_check(k, n, &rule, false, bounds, o);
        // exactness on polynomials
        let deg = if k == Nc::Simp { 3 } else { 1 };
        for (a, b) in [(0.0, 1.0), (-1.0, 2.0), (3.0, -2.0)] {
            for d in 0..=deg {
                let got = rule.integrate(a, b, &mut |x| x.powi(d));
                let want = (f64::powi(b, d + 1) - f64::powi(a, d + 1)) / (d + 1) as f64;
                o.eval();
                if !((got - want).abs() <= (3.0 * n as f64 + 20.0) * EPS * 40.0) {
                    o.fail(format!("{} degree {n}: the integral of x^{d} from {a:?} to {b:?} is {got:?} instead of {want:?}", k.key()), k.ctor(n));
                }
            }
        }
    });
    // environments
    let mut items: Vec<(Nc, u32, usize)> = vec![];
    for b in [1usize, 6, 3] {
        items.extend([(Nc::Mid, 1, b), (Nc::Mid, 2, b), (Nc::Mid, 3, b), (Nc::Mid, 4, b), (Nc::Trap, 1, b), (Nc::Trap, 2, b), (Nc::Trap, 3, b), (Nc::Simp, 1, b), (Nc::Simp, 2, b)]);
    }
    r.rule("every sequence of integrand answers (the alphabet of C07, reduced to 6 values at 5 samples) in call order for all degrees with at most 5 samples");
    r.cases(&items, |(k, n, b)| format!("{} n={n} bounds#{b} environments", k.key()), |&(k, n, bi), o| {
        let rule = k.build(n);
        let (a, b) = BOUNDS[bi];
        let m = Model::nc(k, n, a, b);
        let ans: &[Ans] = if m.at.len() >= 5 { &[Ans::V(0.0), Ans::V(-1.0), Ans::V(0.1), Ans::V(f64::INFINITY), Ans::V(f64::NAN), Ans::Panic] } else { &ANSWERS };
        environments(&format!("{} degree {n}", k.key()), &k.ctor(n), &m, &|g| rule.integrate(a, b, g), ans, a, b, o);
    });
    // degree histories: breadth-first over sequences of change_degree / integrate, compared with a fresh rule
    let degs: Vec<u32> = vec![1, 2, 3, 8, 65_536, u32::MAX];
    let depth = r.pick(4, 6);
    let mut items = vec![];
    for k in NCS {
        for &d in &degs {
            items.push((k, d));
        }
    }
    r.rule(format!("every sequence of up to {depth} degree changes over {degs:?} from every initial degree, the rule compared with a fresh one (equality, iteration, integrals) after each"));
    r.cases(&items, |(k, d)| format!("{} from degree {d}: degree histories", k.key()), |&(k, d), o| {
        let mut stack: Vec<(NcRule, Vec<u32>)> = vec![(k.build(d), vec![])];
        while let Some((rule, hist)) = stack.pop() {
            let cur = *hist.last().unwrap_or(&d);
            let fresh = k.build(cur);
            let fail = |o: &mut Obs, e: String| o.fail(format!("{} built with degree {d} and changed to {hist:?}: {e}", k.key()), format!("let mut r = {}; for d in {hist:?} {{ r.change_degree(d.try_into().unwrap()); }}", k.ctor(d)));
            o.eval();
            o.distinct(&hist);
            o.states += 1;
            o.traces += 1;
            o.transitions += hist.len().min(1) as u64;
            if rule != fresh || rule.degree() != cur {
                fail(o, format!("degree() = {}, not equal to a fresh rule of degree {cur}", rule.degree()));
            }
            if cur <= 8 {
                let (x, y) = (rule.integrate(-1.0, 2.0, &mut |x| x.powi(4)), fresh.integrate(-1.0, 2.0, &mut |x| x.powi(4)));
                if x.to_bits() != y.to_bits() || rule.nodes() != fresh.nodes() {
                    fail(o, format!("integrates to {x:?}, a fresh rule gives {y:?}"));
                }
            } else {
                // the first samples of a huge rule, until the integrand refuses
                let n = cur as f64;
                let cut = |r: &NcRule| record(|g| r.integrate(0.0, n, g), |i, _| if i < 40 { Ans::V(1.0) } else { Ans::Panic });
                let (x, y) = (cut(&rule), cut(&fresh));
                if x.xs != y.xs {
                    fail(o, "samples other points than a fresh rule".into());
                }
                // with b = n the cells have unit width: sample points are (half-)integers of the right parity
                let off = if k == Nc::Mid { 0.5 } else { 0.0 };
                for p in &x.xs {
                    let z = (p - off) * if k == Nc::Simp { 2.0 } else { 1.0 };
                    if (z - z.round()).abs() > 1e-5 || *p < 0.0 || *p > n {
                        fail(o, format!("samples {p:?}, which is not a sample point of the {cur}-cell grid on [0, {n:?}]"));
                        break;
                    }
                }
                let mut s = x.xs.clone();
                s.sort_by(f64::total_cmp);
                if s.windows(2).any(|w| w[1] - w[0] < 0.4) {
                    fail(o, "samples a point twice".into());
                }
            }
            if o.failed() {
                return;
            }
            if hist.len() < depth {
                for &nd in degs.iter().rev() {
                    let mut r2 = rule.clone();
                    r2.change_degree(nd);
                    let mut h = hist.clone();
                    h.push(nd);
                    stack.push((r2, h));
                }
            }
        }
    });
    // Very many cells: on [0, n] sample 2 k/2 has index k, so a bit per half cell shows which were taken.
    let huge: Vec<(Nc, u32)> = NCS.iter().flat_map(|&k| r.pick(vec![if cfg!(feature = "full") { 2_000_003 } else { (1u32 << 31) + 9 }, (1 << 24) + 51, 1_000_003], vec![u32::MAX, (1 << 31) + 9, 100_000_007, (1 << 24) + 51, (1 << 24) + 1, 1_000_003]).into_iter().map(move |n| (k, n))).collect();
    r.rule("up to billions of cells: exactly the half-integer grid of [0, n] is sampled, each point once, and the integrals of 1, of an affine function and of a function that is 1 on a few samples");
    r.cases(&huge, |(k, n)| format!("{} n={n} grid", k.key()), |&(k, n), o| {
        let nf = n as f64;
        let mut seen = vec![0u64; (2 * n as usize + 1) / 64 + 1];
        let (mut bad, mut calls) = (None, 0u64);
        let v = k.build(n).integrate(0.0, nf, &mut |x| {
            let i = (2.0 * x).round();
            if !(i >= 0.0 && i <= 2.0 * nf && (2.0 * x - i).abs() < 1e-4) {
                bad.get_or_insert(x);
                return 1.0;
            }
            let i = i as usize;
            if seen[i / 64] >> (i % 64) & 1 == 1 {
                bad.get_or_insert(x);
            }
            seen[i / 64] |= 1 << (i % 64);
            calls += 1;
            1.0
        });
        drop(seen);
        o.eval();
        let want = match k {
            Nc::Mid => n as u64,
            Nc::Trap => n as u64 + 1,
            Nc::Simp => 2 * n as u64 + 1,
        };
        if let Some(x) = bad {
            return o.fail(format!("{} degree {n}: a sample at {x:?} on [0, {n}], which is off the grid or was taken before", k.key()), k.ctor(n));
        }
        if calls != want || !((v / nf - 1.0).abs() <= 1e-9) {
            o.fail(format!("{} degree {n}: {calls} calls instead of {want}, integral of 1 over [0, {n}] is {v:?}", k.key()), k.ctor(n));
        }
        if n > 1 << 28 {
            return;
        }
        let v = k.build(n).integrate(0.0, nf, &mut |x| x - 0.25 * nf);
        o.eval();
        if !((v / (0.25 * nf * nf) - 1.0).abs() <= 1e-8) {
            o.fail(format!("{} degree {n}: the integral of x - n/4 over [0, {n}] is {v:?}", k.key()), k.ctor(n));
        }
        for at in [0, 1, 2, 3, n as u64, n as u64 + 1, 2 * n as u64 - 1, 2 * n as u64] {
            let v = k.build(n).integrate(0.0, nf, &mut |x| if (2.0 * x - at as f64).abs() < 1e-3 { 1.0 } else { 0.0 });
            let end = at == 0 || at == 2 * n as u64;
            let want = match k {
                Nc::Mid => (at % 2) as f64,
                Nc::Trap => if at % 2 == 1 { 0.0 } else if end { 0.5 } else { 1.0 },
                Nc::Simp => if at % 2 == 1 { 4.0 / 6.0 } else if end { 1.0 / 6.0 } else { 2.0 / 6.0 },
            };
            o.eval();
            if !((v - want).abs() <= 1e-12) {
                o.fail(format!("{} degree {n}: the sample at {} of [0, {n}] has weight {v:?} instead of {want:?}", k.key(), at as f64 / 2.0), k.ctor(n));
            }
        }
        o.distinct(&(k, n));
    });
}
