//! Reference orthonormal polynomials through their exact three-term recurrences, in double-double.
use crate::dd::*;

pub struct Rec {
    r: Vec<DD>,
    a: Vec<DD>,
    s: Vec<DD>,
    /// off-diagonal entries b_1..
    pub mu0: DD,
    /// bound on the norm of the n x n Jacobi matrix for every n covered
    max_ab: Vec<f64>,
}

/// value of p_n, p_n', and the weight mu0 / sum_{j<n} p_j^2 at a point
pub struct Eval {
    pub p_over_dp: DD,
    /// sign of p_n
    pub sign: f64,
    /// weight / mu0 = mant * 2^exp
    pub w_mant: DD,
    pub w_exp: i32,
}
impl Eval {
    /// the Gauss weight as DD, flushed to zero when below the double range
    pub fn rel_weight(&self) -> DD {
        ldexp(self.w_mant, self.w_exp)
    }
}
pub fn ldexp(x: DD, e: i32) -> DD {
    let mut e = e;
    let mut x = x;
    while e < -900 {
        x = x.scale(2f64.powi(-900));
        e += 900;
        if x.hi == 0.0 {
            return ZERO;
        }
    }
    while e > 900 {
        x = x.scale(2f64.powi(900));
        e -= 900;
    }
    x.scale(2f64.powi(e))
}

impl Rec {
    /// from diagonal a_0..a_{n-1} and off-diagonal b_1..b_n
    fn build(a: Vec<DD>, b: Vec<DD>, mu0: DD) -> Rec {
        let n = a.len();
        let mut r = Vec::with_capacity(n);
        let mut s = Vec::with_capacity(n);
        let mut max_ab = Vec::with_capacity(n);
        let mut m: f64 = 0.0;
        for j in 0..n {
            let rj = ONE / b[j];
            s.push(if j == 0 { ZERO } else { b[j - 1] * rj });
            r.push(rj);
            let row = a[j].f().abs() + if j > 0 { b[j - 1].f() } else { 0.0 };
            // Gershgorin row j of the matrix truncated after row j
            m = m.max(row);
            let prev_full = if j > 0 {
                a[j - 1].f().abs() + b[j - 1].f() + if j > 1 { b[j - 2].f() } else { 0.0 }
            } else {
                0.0
            };
            m = m.max(prev_full);
            max_ab.push(m);
        }
        Rec { r, a, s, mu0, max_ab }
    }
    pub fn cap(&self) -> usize {
        self.a.len()
    }
    /// Gershgorin bound of the degree-n Jacobi matrix
    pub fn norm(&self, n: usize) -> f64 {
        self.max_ab[n - 1]
    }
    pub fn legendre(n: usize) -> Rec {
        let a = vec![ZERO; n];
        let b = (1..=n as i64)
            .map(|j| DD::int(j) / DD::int(4 * j * j - 1).sqrt())
            .collect();
        Rec::build(a, b, DD::new(2.0))
    }
    pub fn chebyshev1(n: usize) -> Rec {
        let h = DD::new(0.5);
        let b = (1..=n).map(|j| if j == 1 { h.sqrt() } else { h }).collect();
        Rec::build(vec![ZERO; n], b, PI)
    }
    pub fn chebyshev2(n: usize) -> Rec {
        let h = DD::new(0.5);
        Rec::build(vec![ZERO; n], vec![h; n], PI * h)
    }
    pub fn hermite(n: usize) -> Rec {
        let b = (1..=n as i64).map(|j| DD::rat(j, 2).sqrt()).collect();
        Rec::build(vec![ZERO; n], b, PI.sqrt())
    }
    pub fn laguerre(n: usize, alpha: f64) -> Rec {
        let al = DD::new(alpha);
        let a = (0..n as i64).map(|j| DD::int(2 * j + 1) + al).collect();
        let b = (1..=n as i64).map(|j| (DD::int(j) * (DD::int(j) + al)).sqrt()).collect();
        Rec::build(a, b, gamma(ONE + al))
    }
    /// ln of the Jacobi total weight
    pub fn jacobi_ln_mu0(alpha: f64, beta: f64) -> DD {
        let (p, q) = (ONE + DD::new(alpha), ONE + DD::new(beta));
        LN2 * (p + q - ONE) + lgamma(p) + lgamma(q) - lgamma(p + q)
    }
    pub fn jacobi(n: usize, alpha: f64, beta: f64) -> Rec {
        let (al, be) = (DD::new(alpha), DD::new(beta));
        let (p, q) = (ONE + al, ONE + be);
        let s2 = p + q; // alpha + beta + 2, accurate
        let two = DD::new(2.0);
        let a = (0..n as i64)
            .map(|j| {
                if j == 0 {
                    (be - al) / s2
                } else {
                    let d = DD::int(2 * j - 2) + s2;
                    (be - al) * (be + al) / (d * (d + two))
                }
            })
            .collect();
        let b = (1..=n as i64)
            .map(|j| {
                let d = DD::int(2 * j - 2) + s2;
                if j == 1 {
                    ((p * q).scale(4.0) / (d * d * (d + ONE))).sqrt()
                } else {
                    let num = DD::int(j) * (DD::int(j - 1) + p) * (DD::int(j - 1) + q) * (DD::int(j - 2) + s2);
                    (num.scale(4.0) / (d * d * (d + ONE) * (d - ONE))).sqrt()
                }
            })
            .collect();
        let l = Self::jacobi_ln_mu0(alpha, beta);
        let mu0 = if l.hi.abs() < 700.0 { l.exp() } else { DD::new(f64::NAN) };
        Rec::build(a, b, mu0)
    }

    pub fn eval(&self, n: usize, x: DD) -> Eval {
        assert!(n <= self.cap());
        let (mut pm, mut p) = (ZERO, ONE);
        let (mut dm, mut d) = (ZERO, ZERO);
        let mut sum = ZERO;
        let mut exp = 0i32;
        for j in 0..n {
            sum = sum + p * p;
            let t = self.r[j] * (x - self.a[j]);
            let np = t * p - self.s[j] * pm;
            let nd = t * d + self.r[j] * p - self.s[j] * dm;
            pm = p;
            p = np;
            dm = d;
            d = nd;
            if d.hi.abs() > 1e100 || p.hi.abs() > 1e100 {
                const K: f64 = 1.0 / 1.2676506002282294e30; // 2^-100
                for v in [&mut pm, &mut p, &mut dm, &mut d] {
                    *v = v.scale(K).scale(K);
                }
                sum = sum.scale(K).scale(K).scale(K).scale(K);
                exp += 200;
            }
        }
        // The sum never vanishes: p_0 = 1 contributes unless scaled away by much larger terms.
        Eval { p_over_dp: p / d, sign: p.hi.signum(), w_mant: ONE / sum, w_exp: -2 * exp }
    }

    /// Newton refinement from x0. Returns the root.
    pub fn refine(&self, n: usize, x0: f64) -> Option<DD> {
        let mut x = DD::new(x0);
        for _ in 0..10 {
            let e = self.eval(n, x);
            let c = e.p_over_dp;
            if !c.is_finite() {
                return None;
            }
            x = x - c;
            if c.hi.abs() <= 1e-21 * x.hi.abs().max(1e-300) || c.hi.abs() < 1e-30 * self.norm(n) {
                return Some(x);
            }
        }
        None
    }

    /// The root of p_n strictly between two points that bracket exactly one sign change.
    pub fn bisect(&self, n: usize, lo: DD, hi: DD) -> Option<DD> {
        let half = DD::new(0.5);
        let (mut lo, mut hi) = (lo, hi);
        // step off the end points, which may be roots themselves
        let w = hi - lo;
        let eps = w.scale(1e-12);
        lo = lo + eps;
        hi = hi - eps;
        let sl = self.eval(n, lo).sign;
        if sl == self.eval(n, hi).sign {
            return None;
        }
        for _ in 0..60 {
            let m = (lo + hi) * half;
            if self.eval(n, m).sign == sl {
                lo = m;
            } else {
                hi = m;
            }
        }
        self.refine(n, ((lo + hi) * half).f())
    }

    /// orthonormal polynomials p_0..p_m at a double point, in plain doubles' target precision (dd)
    pub fn values(&self, m: usize, x: f64) -> Vec<DD> {
        let mut v = vec![ONE];
        let mut pm = ZERO;
        let mut p = ONE;
        for j in 0..m {
            let np = self.r[j] * (DD::new(x) - self.a[j]) * p - self.s[j] * pm;
            pm = p;
            p = np;
            v.push(p);
        }
        v
    }
}
