//! C21: the error of an estimate is what the textbook error formula says.
use crate::exact::{EPS, slack};
use crate::grid;
use crate::laws::{Any, Spec};
use crate::rules::*;
use mc_core::dd::{DD, lgamma};
use mc_core::poly::Rec;
use mc_core::run::{Obs, Run};
use serde_json::json;

fn lg(x: f64) -> f64 {
    lgamma(DD::new(x)).f()
}
fn lgd(x: DD) -> DD {
    lgamma(x)
}
/// ln of a binomial coefficient
fn lbin(m: usize, k: usize) -> f64 {
    lg(m as f64 + 1.0) - lg(k as f64 + 1.0) - lg((m - k) as f64 + 1.0)
}

// ---- ordinary integrals: Newton-Cotes and Legendre -----------------------------------------------------------------

/// integrands with a known integral and known derivatives of every even order
#[derive(Clone, Copy, Debug)]
enum Fun {
    /// e^(s x)
    Exp(f64),
    /// 1 / (x + c)
    Recip(f64),
    /// cos(s x + 1)
    Cos(f64),
    /// x^m
    Pow(u32),
}
impl Fun {
    fn at(self, x: f64) -> f64 {
        match self {
            Fun::Exp(s) => (s * x).exp(),
            Fun::Recip(c) => 1.0 / (x + c),
            Fun::Cos(s) => (s * x + 1.0).cos(),
            Fun::Pow(m) => x.powi(m as i32),
        }
    }
    fn fits(self, a: f64, b: f64) -> bool {
        !matches!(self, Fun::Recip(c) if a.min(b) + c <= 0.05)
    }
    fn integral(self, a: f64, b: f64) -> f64 {
        match self {
            Fun::Exp(s) => (s * a).exp() * (s * (b - a)).exp_m1() / s,
            Fun::Recip(c) => ((b - a) / (a + c)).ln_1p(),
            Fun::Cos(s) => 2.0 * (s * (b - a) / 2.0).sin() * (s * (a + b) / 2.0 + 1.0).cos() / s,
            Fun::Pow(m) => (b.powi(m as i32 + 1) - a.powi(m as i32 + 1)) / (m + 1) as f64,
        }
    }
    /// how much the value may be off when the argument and the operations are rounded, in eps
    fn shaky(self, x: f64) -> f64 {
        match self {
            Fun::Exp(s) => (s * x).exp() * (2.0 + (s * x).abs()),
            Fun::Recip(c) => (2.0 + (x.abs() + c.abs()) / (x + c)) / (x + c),
            Fun::Cos(s) => 2.0 + (s * x).abs(),
            Fun::Pow(m) => x.abs().powi(m as i32) * (2.0 * m as f64 + 2.0),
        }
    }
    /// range over [a, b] of e^lnc times the derivative of the (even) order k
    fn derivative(self, k: usize, lnc: f64, a: f64, b: f64) -> (f64, f64) {
        let (a, b) = (a.min(b), a.max(b));
        let ord = |u: f64, v: f64| (u.min(v), u.max(v));
        match self {
            Fun::Exp(s) => {
                let d = |x: f64| (lnc + k as f64 * s.abs().ln() + s * x).exp();
                ord(d(a), d(b))
            }
            Fun::Recip(c) => {
                let d = |x: f64| (lnc + lg(k as f64 + 1.0) - (k + 1) as f64 * (x + c).ln()).exp();
                ord(d(a), d(b))
            }
            Fun::Cos(s) => {
                let m = (lnc + k as f64 * s.abs().ln()).exp();
                (-m, m)
            }
            Fun::Pow(m) => {
                let m = m as usize;
                if m < k {
                    return (0.0, 0.0);
                }
                let e = (m - k) as i32;
                let c = (lnc + lg(m as f64 + 1.0) - lg(e as f64 + 1.0)).exp();
                let (l, h) = ord(c * a.powi(e), c * b.powi(e));
                if e % 2 == 0 && a < 0.0 && b > 0.0 && e > 0 { (0.0, h) } else { (l, h) }
            }
        }
    }
}

/// (order of the derivative, sign, ln of the factor) of the error term "integral minus estimate" on an interval of the given width
fn factor(s: &Spec, width: f64) -> (usize, f64, f64) {
    let l = width.ln();
    match *s {
        Spec::N(k, n) => {
            let h = l - (n as f64).ln();
            match k {
                Nc::Mid => (2, 1.0, l + 2.0 * h - 24f64.ln()),
                Nc::Trap => (2, -1.0, l + 2.0 * h - 12f64.ln()),
                Nc::Simp => (4, -1.0, l + 4.0 * h - 2880f64.ln()),
            }
        }
        Spec::G(_, n) => {
            let n = n as f64;
            (2 * n as usize, 1.0, (2.0 * n + 1.0) * l + 4.0 * lg(n + 1.0) - (2.0 * n + 1.0).ln() - 3.0 * lg(2.0 * n + 1.0))
        }
    }
}

const BND: [(f64, f64); 10] = [(-1.0, 1.0), (0.0, 1.0), (1.0, 0.0), (0.5, 3.0), (-2.0, -0.25), (2.0, -1.0), (10.0, 11.0), (-4.0, 4.0), (0.0, 12.0), (100.0, 100.5)];

fn plain(s: &Spec, funs: &[Fun], o: &mut Obs) {
    let rule = Any::new(s);
    for (a, b) in BND {
        let (order, sign, lnc) = factor(s, (b - a).abs());
        let m = rule.model(a, b);
        for f in funs.iter().filter(|f| f.fits(a, b)) {
            o.eval();
            o.distinct(&(format!("{f:?}"), a.to_bits(), b.to_bits()));
            let got = rule.integrate(a, b, &mut |x| f.at(x));
            let want = f.integral(a, b);
            // the error changes its sign with the orientation
            let dir = if b > a { sign } else { -sign };
            let (l, h) = f.derivative(order, lnc, a, b);
            let (l, h) = if dir > 0.0 { (l, h) } else { (-h, -l) };
            let round: f64 = m.at.iter().zip(&m.w).map(|(x, w)| f.shaky(*x) * w.abs()).sum::<f64>() * m.scale.abs();
            let big = (b - a).abs() * f.shaky(a).max(f.shaky(b));
            let t = 2.0 * EPS * (m.ops.min(40.0 + m.ops.sqrt() * 8.0) * round + 16.0 * big) + 1e-9 * l.abs().max(h.abs());
            let e = want - got;
            if l == 0.0 && h == 0.0 {
                o.max("used_of_the_rounding_allowance", e.abs() / t);
            }
            o.count(if l.abs().max(h.abs()) > 8.0 * t { "decided_by_the_error_term" } else { "at_rounding_level" }, 1);
            if !(e >= l - t && e <= h + t) {
                return o.fail(
                    format!("{}: the integral of {f:?} from {a:?} to {b:?} is {want:?}, the estimate {got:?}; the error {e:e} is not in [{l:e}, {h:e}] (rounding {t:e})", s.key()),
                    s.ctor(),
                );
            }
        }
    }
}

// ---- weighted integrals --------------------------------------------------------------------------------------------

struct Weighted<'a> {
    fam: Fam,
    n: usize,
    rule: &'a dyn Rule,
    /// ln of the squared norm of the monic orthogonal polynomial
    norm: f64,
    rec: Rec,
    /// how far every node and weight may be off: closed forms, or a backward-stable eigensolver
    slack: Vec<(f64, f64)>,
    /// relative allowance for the total weight
    trust: f64,
}
/// one integral: value, range of the error, allowance
struct Expect {
    what: String,
    a: f64,
    b: f64,
    f: Box<dyn Fn(f64) -> f64>,
    /// operations in f
    ops: f64,
    want: f64,
    lo: f64,
    hi: f64,
}
impl Weighted<'_> {
    fn check(&self, x: &Expect, o: &mut Obs) -> bool {
        o.eval();
        o.distinct(&x.what);
        let got = self.rule.integrate(x.a, x.b, &mut |v| (x.f)(v));
        let (mid, half) = if self.fam.finite() { (0.5 * (x.a + x.b), 0.5 * (x.b - x.a)) } else { (0.0, 1.0) };
        let f = |u: f64| (x.f)(mid + half * u);
        let mut t = 64.0 * EPS * x.want.abs() + if x.lo.is_finite() && x.hi.is_finite() { 1e-9 * x.lo.abs().max(x.hi.abs()) } else { 0.0 };
        for ((u, w), (du, dw)) in self.rule.pairs().iter().zip(&self.slack) {
            let v = f(*u);
            if v.is_infinite() && u.is_finite() {
                // a power too large for the far nodes
                return true;
            }
            let moved = (f(u + du) - v).abs().max((f(u - du) - v).abs());
            t += half.abs() * (w * moved + (dw + w * (self.trust + EPS * (16.0 + self.n as f64 + 4.0 * x.ops))) * v.abs());
        }
        let ok = |got: f64| x.want - got >= x.lo - t && x.want - got <= x.hi + t;
        if x.lo == 0.0 && x.hi == 0.0 {
            o.max(&format!("used_of_the_rounding_allowance_{}", self.fam.key().split('(').next().unwrap()), (x.want - got).abs() / t);
        }
        o.count(if x.lo.abs().max(x.hi.abs()) > 8.0 * t { "decided_by_the_error_term" } else { "at_rounding_level" }, 1);
        if ok(got) {
            return true;
        }
        let p = self.rule.pairs();
        let mut sig = "";
        if let (Fam::Jacobi(al, be), 1, true) = (self.fam, self.n % 2, self.n >= 3)
            && al != be
            && p.len() == self.n
            && p[self.n / 2].0 == 0.0
        {
            // does the estimate become right once the overwritten node is put back?
            let m = self.n / 2;
            if let Some(r) = self.rec.bisect(self.n, DD::new(p[m - 1].0), DD::new(p[m + 1].0)) {
                if ok(got + half * p[m].1 * (f(r.f()) - f(0.0))) {
                    sig = "jacobi-odd-middle-node-forced-to-zero";
                }
            }
        }
        o.fail_sig(
            sig,
            format!("{} degree {}: {} is {:?}, the estimate {got:?}; the error {:e} is not in [{:e}, {:e}] (rounding {:e})", self.fam.key(), self.n, x.what, x.want, x.want - got, x.lo, x.hi, t),
            self.fam.ctor(self.n),
        );
        !sig.is_empty()
    }
}

/// relative allowance for the total weight (the accuracy of Gamma and of the powers)
pub fn trust(fam: Fam) -> f64 {
    EPS * match fam {
        Fam::Laguerre(a) => 4.0 * (8.0 + 10.0 * (a + 1.0) * (a + 1.0)).min(1600.0),
        Fam::Jacobi(a, b) => 4.0 * (60.0 + 10.0 * (a * a + b * b)).min(3000.0),
        _ => 30.0,
    }
}

fn weighted(fam: Fam, n: usize, o: &mut Obs) {
    let rule = fam.build(n);
    let nf = n as f64;
    let ln2 = std::f64::consts::LN_2;
    let (al, be) = match fam {
        Fam::Jacobi(a, b) => (a, b),
        Fam::Cheb1 => (-0.5, -0.5),
        Fam::Cheb2 => (0.5, 0.5),
        _ => (0.0, 0.0),
    };
    let norm = match fam {
        Fam::Hermite => 0.5 * std::f64::consts::PI.ln() + lg(nf + 1.0) - nf * ln2,
        Fam::Laguerre(a) => lg(nf + 1.0) + lg(nf + a + 1.0),
        _ => {
            // n + alpha + beta + 1 > 0 for n >= 1
            let s = al + be;
            (2.0 * nf + s + 1.0) * ln2 + lg(nf + 1.0) + lg(nf + al + 1.0) + lg(nf + be + 1.0) + lg(nf + s + 1.0) - lg(2.0 * nf + s + 1.0) - lg(2.0 * nf + s + 2.0)
        }
    };
    let rec = grid::rec(fam, n);
    let slack = slack(fam, rule.pairs(), &rec);
    let trust = trust(fam);
    let w = Weighted { fam, n, rule: &*rule, norm, rec, slack, trust };
    // exponents: exact ones, the first that is not, and some more
    let mut ms: Vec<usize> = (0..=2 * n.min(12) + 4).chain([2 * n - 1, 2 * n, 2 * n + 1, 2 * n + 2, 3 * n, 4 * n + 7]).collect();
    if n > 12 {
        ms.extend((n..2 * n).step_by(n / 6));
    }
    ms.sort();
    ms.dedup();
    match fam {
        Fam::Hermite => {
            let root_pi = std::f64::consts::PI.sqrt();
            for s in [0.25f64, 0.5, 1.0, 2.0, 3.0, -4.0] {
                let c = (w.norm + 2.0 * nf * s.abs().ln() - lg(2.0 * nf + 1.0)).exp();
                let ok = w.check(&Expect { what: format!("the integral of cos({s:?} x + 0.3)"), a: 0.0, b: 0.0, f: Box::new(move |x| (s * x + 0.3).cos()), ops: 8.0, want: root_pi * (-s * s / 4.0).exp() * f64::cos(0.3), lo: -c, hi: c }, o)
                    && w.check(&Expect { what: format!("the integral of exp({s:?} x)"), a: 0.0, b: 0.0, f: Box::new(move |x| (s * x).exp()), ops: 8.0, want: root_pi * (s * s / 4.0).exp(), lo: 0.0, hi: f64::INFINITY }, o);
                if !ok {
                    return;
                }
            }
            // x^m for even m, divided by its integral
            for &m in ms.iter().filter(|m| **m % 2 == 0) {
                let ln = lgd(DD::new(0.5 * (m as f64 + 1.0))).f();
                let c = if m >= 2 * n { (w.norm + lbin(m, 2 * n) - ln).exp() } else { 0.0 };
                let k = (-ln / m.max(1) as f64).exp();
                let (f, want): (Box<dyn Fn(f64) -> f64>, f64) = if m == 0 { (Box::new(|_| 1.0), root_pi) } else { (Box::new(move |x| (k * x).powi(m as i32)), 1.0) };
                let exact = m == 2 * n;
                if !w.check(&Expect { what: format!("the integral of x^{m} (scaled)"), a: 0.0, b: 0.0, f, ops: m as f64 * 2.0, want, lo: if exact { c } else { 0.0 }, hi: if m > 2 * n { f64::INFINITY } else { c } }, o) {
                    return;
                }
            }
        }
        Fam::Laguerre(a) => {
            let l0 = lg(a + 1.0);
            for s in [0.125f64, 0.5, 1.0, 2.0, 3.0] {
                // integrand divided by the total weight
                let c = (w.norm + 2.0 * nf * s.ln() - lg(2.0 * nf + 1.0) - l0).exp();
                let z = (-l0).exp();
                if !w.check(&Expect { what: format!("the integral of exp(-{s:?} x) / Gamma(alpha + 1)"), a: 0.0, b: 0.0, f: Box::new(move |x| z * (-s * x).exp()), ops: 8.0, want: (1.0 + s).powf(-a - 1.0), lo: 0.0, hi: c }, o) {
                    return;
                }
            }
            for &m in &ms {
                let ln = lgd(DD::new(a) + DD::int(m as i64 + 1)).f();
                let c = if m >= 2 * n { (w.norm + lbin(m, 2 * n) - ln).exp() } else { 0.0 };
                let k = (-ln / m.max(1) as f64).exp();
                let z = (-l0).exp();
                let f: Box<dyn Fn(f64) -> f64> = if m == 0 { Box::new(move |_| z) } else { Box::new(move |x| (k * x).powi(m as i32)) };
                let exact = m == 2 * n;
                if !w.check(&Expect { what: format!("the integral of x^{m} (scaled)"), a: 0.0, b: 0.0, f, ops: m as f64 * 2.0, want: 1.0, lo: if exact { c } else { 0.0 }, hi: if m > 2 * n { f64::INFINITY } else { c } }, o) {
                    return;
                }
            }
        }
        _ => {
            // (1 + t)^m and (1 - t)^m, scaled to the integral 1, on intervals where 1 +- t has no cancellation
            for &m in &ms {
                for up in [true, false] {
                    let (p, q) = if up { (al, be) } else { (be, al) };
                    let (mi, one) = (DD::int(m as i64), DD::int(1));
                    let (pd, qd) = (DD::new(p), DD::new(q));
                    let ln = (DD::new(2.0).ln() * (pd + qd + mi + one) + lgd(pd + one) + lgd(qd + mi + one) - lgd(pd + qd + mi + one + one)).f();
                    let c = if m >= 2 * n { (w.norm + lbin(m, 2 * n) - ln).exp() } else { 0.0 };
                    let top = if m >= 2 * n { (w.norm + lbin(m, 2 * n) - ln + (m - 2 * n) as f64 * ln2).exp() } else { 0.0 };
                    let k = (-ln / m.max(1) as f64).exp();
                    let z = (-ln).exp();
                    let pow = move |u: f64| if m == 0 { z } else { (k * u).powi(m as i32) };
                    let sides: [(f64, f64, Box<dyn Fn(f64) -> f64>); 3] = if up {
                        [(-1.0, 1.0, Box::new(move |x| pow(1.0 + x))), (0.0, 2.0, Box::new(pow)), (3.0, 1.0, Box::new(move |x| pow(3.0 - x)))]
                    } else {
                        [(-1.0, 1.0, Box::new(move |x| pow(1.0 - x))), (-2.0, 0.0, Box::new(move |x| pow(-x))), (-1.0, -3.0, Box::new(move |x| pow(x + 3.0)))]
                    };
                    for (a, b, f) in sides {
                        let d = 0.5 * (b - a);
                        let (lo, hi) = (if m == 2 * n { c } else { 0.0 }, top);
                        let (lo, hi) = if d > 0.0 { (lo, hi) } else { (-hi, -lo) };
                        if !w.check(&Expect { what: format!("the integral of (1 {} t)^{m} (scaled) from {a:?} to {b:?}", if up { '+' } else { '-' }), a, b, f, ops: m as f64 * 2.0, want: d, lo, hi }, o) {
                            return;
                        }
                    }
                }
            }
            if matches!(fam, Fam::Cheb1 | Fam::Cheb2) {
                // 1 / (c - t)
                for c in [1.05f64, 1.25, 2.0, 5.0, -1.1, -3.0] {
                    let r = (c * c - 1.0).sqrt().copysign(c);
                    let pi = std::f64::consts::PI;
                    let want = if fam == Fam::Cheb1 { pi / r } else { pi * (c - r) };
                    // (2n)! / (c - t)^(2n+1) at the ends, over (2n)!
                    let d = |t: f64| (w.norm - (2.0 * nf + 1.0) * (c - t).abs().ln()).exp().copysign(c);
                    let (lo, hi) = (d(-1.0).min(d(1.0)), d(-1.0).max(d(1.0)));
                    if !w.check(&Expect { what: format!("the integral of 1 / ({c:?} - t)"), a: -1.0, b: 1.0, f: Box::new(move |t| 1.0 / (c - t)), ops: 8.0, want, lo, hi }, o) {
                        return;
                    }
                }
            }
        }
    }
}

pub fn c21(r: &Run) {
    let mut funs: Vec<Fun> = vec![];
    funs.extend([-3.0, -1.0, 0.25, 0.5, 1.0, 2.0].map(Fun::Exp));
    funs.extend([1.1, 1.5, 2.5, 4.5, 20.0, -9.0].map(Fun::Recip));
    funs.extend([0.5, 1.0, 3.0, 10.0].map(Fun::Cos));
    funs.extend((0..=8).chain([11, 16, 25]).map(Fun::Pow));
    let mut specs: Vec<Spec> = vec![];
    let (gtop, ntop) = (r.pick(260, 700), r.pick(400, 2000));
    specs.extend((1..=gtop).map(|n| Spec::G(Fam::Legendre, n)));
    for k in NCS {
        specs.extend((1..=ntop).chain([1000, 1024, 4097, 10_000, 65_537]).map(|n| Spec::N(k, n)));
    }
    specs.reverse();
    r.rule(format!("Legendre degrees 1..={gtop} and composite rules of 1..={ntop} and up to 65537 cells, {} pairs of bounds, {} integrands with known integral and derivatives: integral minus estimate lies between the error constant times the extremes of the 2n-th (second, fourth) derivative over the interval; a case is one rule and degree", BND.len(), funs.len()));
    r.cases(&specs, |s| format!("{} error term", s.key()), |s, o| {
        plain(s, &funs, o);
        o.sample(json!({"rule": s.key(), "integrals": o.evals}));
    });
    let top = r.pick(60, 130);
    let mut items: Vec<(Fam, usize)> = vec![];
    let mut fams = vec![Fam::Legendre, Fam::Cheb1, Fam::Cheb2, Fam::Hermite];
    fams.extend([-0.9, -0.5, 0.0, 0.5, 1.0, 3.7, 12.0, 40.0].map(Fam::Laguerre));
    let ps = [-0.9, -0.5, -0.25, 0.0, 0.5, 1.0, 2.5, 7.0];
    for a in ps {
        fams.extend(ps.map(|b| Fam::Jacobi(a, b)));
    }
    for &f in &fams {
        let closed = matches!(f, Fam::Legendre | Fam::Cheb1 | Fam::Cheb2);
        items.extend((1..=if closed { 6 * top } else { top }).chain(if closed { vec![] } else { vec![99, 100, 128, 201] }).map(|n| (f, n)));
    }
    items.reverse();
    r.rule(format!("{} weighted rules of degree 1..={top} (those in closed form to {}) and some larger: powers of x (1 + t and 1 - t on three intervals for the finite domains) of every exponent up to 2n + 4 for n <= 12 and around n, 2n, 3n, 4n beyond, exponentials, cosines and reciprocals: the error is zero below degree 2n, exactly the squared norm of the monic orthogonal polynomial at 2n, and within the range of the 2n-th derivative times it above", fams.len(), 6 * top));
    r.cases(&items, |(f, n)| format!("{} n={n} weighted error term", f.key()), |&(f, n), o| {
        weighted(f, n, o);
        o.sample(json!({"rule": f.key(), "degree": n, "integrals": o.evals}));
    });
}
