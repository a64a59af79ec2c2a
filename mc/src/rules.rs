//! The rules under test, behind one object-safe interface (public API only).
#![allow(dead_code)]
use gauss_quad::*;
use std::num::{NonZeroU32, NonZeroUsize};

pub fn nzu(n: usize) -> NonZeroUsize {
    NonZeroUsize::new(n).expect("degree 0 in a harness")
}
pub fn nz32(n: u32) -> NonZeroU32 {
    NonZeroU32::new(n).expect("degree 0 in a harness")
}
pub fn par(x: f64) -> FiniteAboveNegOneF64 {
    FiniteAboveNegOneF64::new(x).unwrap_or_else(|| panic!("the parameter {x:?} is admissible but was refused"))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fam {
    Legendre,
    Hermite,
    Laguerre(f64),
    Jacobi(f64, f64),
    Cheb1,
    Cheb2,
}
use Fam::*;

pub const MIXED: [Fam; 8] = [
    Legendre,
    Cheb1,
    Cheb2,
    Hermite,
    Laguerre(0.0),
    Laguerre(1.5),
    Jacobi(0.5, 1.5),
    Jacobi(-0.25, -0.25),
];

impl Fam {
    pub fn key(&self) -> String {
        match self {
            Legendre => "GaussLegendre".into(),
            Hermite => "GaussHermite".into(),
            Laguerre(a) => format!("GaussLaguerre(alpha={a:?})"),
            Jacobi(a, b) => format!("GaussJacobi(alpha={a:?},beta={b:?})"),
            Cheb1 => "GaussChebyshevFirstKind".into(),
            Cheb2 => "GaussChebyshevSecondKind".into(),
        }
    }
    pub fn ctor(&self, n: usize) -> String {
        let p = |x: f64| format!("FiniteAboveNegOneF64::new({x:?}).unwrap()");
        match self {
            Laguerre(a) => format!("GaussLaguerre::new({n}.try_into().unwrap(), {})", p(*a)),
            Jacobi(a, b) => format!("GaussJacobi::new({n}.try_into().unwrap(), {}, {})", p(*a), p(*b)),
            f => format!("{}::new({n}.try_into().unwrap())", f.key()),
        }
    }
    pub fn finite(&self) -> bool {
        !matches!(self, Hermite | Laguerre(_))
    }
    pub fn build(&self, n: usize) -> Box<dyn Rule> {
        let n = nzu(n);
        match *self {
            Legendre => Box::new(GaussLegendre::new(n)),
            Hermite => Box::new(GaussHermite::new(n)),
            Laguerre(a) => Box::new(GaussLaguerre::new(n, par(a))),
            Jacobi(a, b) => Box::new(GaussJacobi::new(n, par(a), par(b))),
            Cheb1 => Box::new(GaussChebyshevFirstKind::new(n)),
            Cheb2 => Box::new(GaussChebyshevSecondKind::new(n)),
        }
    }
    #[cfg(feature = "full")]
    pub fn par_build(&self, n: usize) -> Option<Box<dyn Rule>> {
        let n = nzu(n);
        Some(match *self {
            Legendre => Box::new(GaussLegendre::par_new(n)),
            Cheb1 => Box::new(GaussChebyshevFirstKind::par_new(n)),
            Cheb2 => Box::new(GaussChebyshevSecondKind::par_new(n)),
            _ => return None,
        })
    }
}

pub trait Rule: Send + Sync {
    fn pairs(&self) -> &[(f64, f64)];
    fn degree(&self) -> usize;
    fn nodes(&self) -> Vec<f64>;
    fn weights(&self) -> Vec<f64>;
    /// a and b are ignored by the rules with an infinite domain
    fn integrate(&self, a: f64, b: f64, f: &mut dyn FnMut(f64) -> f64) -> f64;
    #[cfg(feature = "full")]
    fn par_integrate(&self, a: f64, b: f64, f: &(dyn Fn(f64) -> f64 + Sync)) -> f64;
    fn clone_box(&self) -> Box<dyn Rule>;
    fn eq_box(&self, o: &dyn Rule) -> Option<bool>;
    fn any(&self) -> &dyn std::any::Any;
}

macro_rules! rule {
    ($t:ty, bounds) => {
        impl Rule for $t {
            rule!(@common);
            fn integrate(&self, a: f64, b: f64, f: &mut dyn FnMut(f64) -> f64) -> f64 {
                <$t>::integrate(self, a, b, f)
            }
            #[cfg(feature = "full")]
            fn par_integrate(&self, a: f64, b: f64, f: &(dyn Fn(f64) -> f64 + Sync)) -> f64 {
                <$t>::par_integrate(self, a, b, f)
            }
        }
    };
    ($t:ty, nobounds) => {
        impl Rule for $t {
            rule!(@common);
            fn integrate(&self, _a: f64, _b: f64, f: &mut dyn FnMut(f64) -> f64) -> f64 {
                <$t>::integrate(self, f)
            }
            #[cfg(feature = "full")]
            fn par_integrate(&self, _a: f64, _b: f64, f: &(dyn Fn(f64) -> f64 + Sync)) -> f64 {
                <$t>::par_integrate(self, f)
            }
        }
    };
    (@common) => {
        fn pairs(&self) -> &[(f64, f64)] {
            self.as_node_weight_pairs()
        }
        fn degree(&self) -> usize {
            self.degree()
        }
        fn nodes(&self) -> Vec<f64> {
            self.nodes().copied().collect()
        }
        fn weights(&self) -> Vec<f64> {
            self.weights().copied().collect()
        }
        fn clone_box(&self) -> Box<dyn Rule> {
            Box::new(self.clone())
        }
        fn eq_box(&self, o: &dyn Rule) -> Option<bool> {
            o.any().downcast_ref::<Self>().map(|o| self == o)
        }
        fn any(&self) -> &dyn std::any::Any {
            self
        }
    };
}
rule!(GaussLegendre, bounds);
rule!(GaussJacobi, bounds);
rule!(GaussChebyshevFirstKind, bounds);
rule!(GaussChebyshevSecondKind, bounds);
rule!(GaussHermite, nobounds);
rule!(GaussLaguerre, nobounds);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Nc {
    Mid,
    Trap,
    Simp,
}
pub const NCS: [Nc; 3] = [Nc::Mid, Nc::Trap, Nc::Simp];
#[derive(Clone, Debug, PartialEq)]
pub enum NcRule {
    Mid(Midpoint),
    Trap(Trapezoid),
    Simp(Simpson),
}
impl Nc {
    pub fn key(&self) -> &'static str {
        match self {
            Nc::Mid => "Midpoint",
            Nc::Trap => "Trapezoid",
            Nc::Simp => "Simpson",
        }
    }
    pub fn ctor(&self, n: u32) -> String {
        format!("{}::new({n}.try_into().unwrap())", self.key())
    }
    pub fn build(&self, n: u32) -> NcRule {
        match self {
            Nc::Mid => NcRule::Mid(Midpoint::new(nz32(n))),
            Nc::Trap => NcRule::Trap(Trapezoid::new(nz32(n))),
            Nc::Simp => NcRule::Simp(Simpson::new(nz32(n))),
        }
    }
    pub fn from_nz(&self, n: u32) -> NcRule {
        match self {
            Nc::Mid => NcRule::Mid(Midpoint::from(nz32(n))),
            Nc::Trap => NcRule::Trap(Trapezoid::from(nz32(n))),
            Nc::Simp => NcRule::Simp(Simpson::from(nz32(n))),
        }
    }
    /// (position in units of half a cell, composite weight in units of h) of every sample
    pub fn samples(&self, n: u64) -> Vec<(u64, f64)> {
        let mut v = vec![];
        match self {
            Nc::Mid => v.extend((0..n).map(|i| (2 * i + 1, 1.0))),
            Nc::Trap => v.extend((0..=n).map(|i| (2 * i, if i == 0 || i == n { 0.5 } else { 1.0 }))),
            Nc::Simp => v.extend((0..=2 * n).map(|i| {
                (i, if i == 0 || i == 2 * n { 1.0 / 6.0 } else if i % 2 == 0 { 2.0 / 6.0 } else { 4.0 / 6.0 })
            })),
        }
        v
    }
}
macro_rules! each {
    ($s:expr, $r:ident => $e:expr) => {
        match $s {
            NcRule::Mid($r) => $e,
            NcRule::Trap($r) => $e,
            NcRule::Simp($r) => $e,
        }
    };
}
impl NcRule {
    pub fn integrate(&self, a: f64, b: f64, f: &mut dyn FnMut(f64) -> f64) -> f64 {
        each!(self, r => r.integrate(a, b, f))
    }
    #[cfg(feature = "full")]
    pub fn par_integrate(&self, a: f64, b: f64, f: &(dyn Fn(f64) -> f64 + Sync)) -> f64 {
        each!(self, r => r.par_integrate(a, b, f))
    }
    pub fn change_degree(&mut self, n: u32) {
        each!(self, r => r.change_degree(nz32(n)))
    }
    pub fn degree(&self) -> u32 {
        each!(self, r => r.degree().get())
    }
    pub fn nodes(&self) -> Vec<f64> {
        each!(self, r => r.iter().collect())
    }
}
