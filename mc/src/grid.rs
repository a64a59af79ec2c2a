//! The enumerated parameter alphabets.
use crate::rules::Fam;
use mc_core::dd::{DD, ONE, lgamma};
use mc_core::poly::Rec;

pub fn up(x: f64) -> f64 {
    x.next_up()
}
pub fn down(x: f64) -> f64 {
    x.next_down()
}
pub const NEAR: f64 = -0.9999999999999999; // the smallest admissible parameter

/// Laguerre parameters: boundary, special values and their neighbours, magnitudes up to the Gamma overflow.
pub fn laguerre_alphas(thorough: bool) -> Vec<f64> {
    let mut v = vec![
        0.0, -0.0, 1.0, -0.5, 0.5, 2.0, -0.25, 1.5, 3.0, NEAR, -0.9999999, -0.999, -0.9, -0.75, 1e-300, 5e-324, 1e-12,
        0.1, 0.25, 0.75, 2.5, 4.7, 7.0, 10.0, 16.5, 33.3, 64.0, 84.0, 100.0, 120.25, 150.0, 169.5, 170.0,
    ];
    if thorough {
        for i in -15..=160 {
            v.push(i as f64 / 16.0 + 1.0 / 64.0);
        }
        for i in 11..=170 {
            v.push(i as f64);
            v.push(i as f64 - 0.3);
        }
        v.extend([up(0.0), up(-0.5), down(-0.5), up(0.5), down(0.5), up(1.0), down(1.0), -1.0 + 1e-12, -1.0 + 1e-9]);
    }
    v
}

pub fn jacobi_params(thorough: bool) -> Vec<(f64, f64)> {
    let mut axis = vec![
        -0.5, 0.5, 0.0, 1.0, -0.25, 2.0, 0.25, -0.75, 1.5, 3.0, NEAR, -0.9999999, -0.99, -0.9, 1e-300, 1e-10, -1e-10, 2.75, 5.0, 10.0,
        20.5, 50.0, 80.0,
    ];
    axis.extend([up(-0.5), down(-0.5), up(0.5), down(0.5), -0.0]);
    if thorough {
        axis.extend([-0.4, -0.6, -0.1, 0.1, 0.4, 0.6, 0.7, 0.9, 1.1, 4.0, 6.0, 7.0, 8.0, 9.0, 15.0, 30.0, 40.0, 65.0, 83.0, -0.999, -0.95, 1.0 / 3.0]);
    }
    let mut v = vec![];
    for (i, &a) in axis.iter().enumerate() {
        for &b in &axis[..=i] {
            v.push((a, b));
            if a.to_bits() != b.to_bits() {
                v.push((b, a));
            }
        }
    }
    // alpha + beta = -1 exactly, and its neighbours
    for a in [-0.125, -0.375, -0.625, -0.9, -0.4] {
        let b: f64 = -1.0 - a;
        v.extend([(a, b), (a, up(b)), (up(a), b), (b, a)]);
    }
    // large parameters, where the Gamma functions of the total weight leave the double range
    v.extend([(150.0, 10.0), (10.0, 150.0), (169.5, -0.5), (-0.5, 169.5), (100.0, 100.0), (170.0, 1.0), (1.0, 170.0), (200.0, 0.0), (0.0, 200.0), (400.0, 400.0), (1000.0, 3.0)]);
    v
}

/// the total weight is representable as a positive normal double
pub fn jacobi_mu0_ok(a: f64, b: f64) -> bool {
    Rec::jacobi_ln_mu0(a, b).f().abs() < 690.0
}
/// Some Gamma function (or intermediate product) of the textbook total-weight formula leaves the double range.
pub fn jacobi_gamma_overflow(a: f64, b: f64) -> bool {
    let l = |x: f64| lgamma(DD::new(x) + ONE).f();
    const MAX: f64 = 709.78;
    let ln2p = (a + b + 1.0) * std::f64::consts::LN_2;
    let s = lgamma(DD::new(a) + DD::new(b) + DD::new(2.0)).f();
    s > MAX || l(a) > MAX || l(b) > MAX || ln2p > MAX || l(a) + l(b) > MAX || ln2p + l(a) > MAX || ln2p + l(a) + l(b) > MAX
        || ln2p + l(b) > MAX
}

pub fn rec(f: Fam, n: usize) -> Rec {
    match f {
        Fam::Legendre => Rec::legendre(n),
        Fam::Hermite => Rec::hermite(n),
        Fam::Laguerre(a) => Rec::laguerre(n, a),
        Fam::Jacobi(a, b) => Rec::jacobi(n, a, b),
        Fam::Cheb1 => Rec::chebyshev1(n),
        Fam::Cheb2 => Rec::chebyshev2(n),
    }
}
