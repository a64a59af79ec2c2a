//! Prints what a user can observe of every rule family, for comparison between feature configurations.
//! Lines: "section|kind value value ..." with values as bit patterns; kind says how values are compared.
use gauss_quad::*;
use std::fmt::Write as _;
use std::num::{NonZeroU32, NonZeroUsize};

fn p(x: f64) -> FiniteAboveNegOneF64 {
    FiniteAboveNegOneF64::new(x).unwrap()
}
fn g(x: f64) -> f64 {
    1.0 + 0.5 * x - 1.0 / (2.0 + x * x)
}
struct Out(String);
impl Out {
    fn line(&mut self, name: &str, kind: &str, v: impl IntoIterator<Item = f64>) {
        write!(self.0, "{name}|{kind}").unwrap();
        for x in v {
            write!(self.0, " {:x}", x.to_bits()).unwrap();
        }
        self.0.push('\n');
    }
}

macro_rules! gauss {
    ($o:expr, $name:expr, $r:expr, $int:expr) => {{
        let r = $r;
        let name = $name;
        $o.line(&name, "node", r.nodes().copied());
        $o.line(&name, "weight", r.weights().copied());
        $o.line(&name, "exact", [r.degree() as f64, r.iter().len() as f64, r.as_node_weight_pairs().len() as f64]);
        let int: f64 = $int(&r);
        $o.line(&name, "integral", [int]);
        r
    }};
}

fn main() {
    let max: usize = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(40);
    let mut o = Out(String::new());
    for n in (1..=8 * max).chain([1001, 4096, 10_007, 65_537]) {
        let z = NonZeroUsize::new(n).unwrap();
        let b = |r: &dyn Fn(f64, f64) -> f64| r(-1.0, 2.0);
        let l = gauss!(o, format!("GaussLegendre n={n}"), GaussLegendre::new(z), |r: &GaussLegendre| b(&|x, y| r.integrate(x, y, g)));
        let c1 = gauss!(o, format!("GaussChebyshevFirstKind n={n}"), GaussChebyshevFirstKind::new(z), |r: &GaussChebyshevFirstKind| b(&|x, y| r.integrate(x, y, g)));
        let c2 = gauss!(o, format!("GaussChebyshevSecondKind n={n}"), GaussChebyshevSecondKind::new(z), |r: &GaussChebyshevSecondKind| b(&|x, y| r.integrate(x, y, g)));
        for (s, j) in [(0.0, GaussJacobi::from(l.clone())), (-0.5, GaussJacobi::from(c1.clone())), (0.5, GaussJacobi::from(c2.clone()))] {
            let d = GaussJacobi::new(z, p(s), p(s));
            o.line(&format!("special GaussJacobi {s} n={n}"), "exact", [(d == j) as u8 as f64, j.alpha().get(), j.beta().get()]);
        }
        #[cfg(feature = "rayon")]
        {
            // the parallel entry points agree with the sequential ones in this very configuration
            let same = |a: &[(f64, f64)], b: &[(f64, f64)]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x.0 - y.0).abs() <= 1e-15 && (x.1 - y.1).abs() <= 1e-15);
            assert!(same(GaussLegendre::par_new(z).as_node_weight_pairs(), l.as_node_weight_pairs()), "GaussLegendre::par_new({n})");
            assert!(same(GaussChebyshevFirstKind::par_new(z).as_node_weight_pairs(), c1.as_node_weight_pairs()), "GaussChebyshevFirstKind::par_new({n})");
            assert!(same(GaussChebyshevSecondKind::par_new(z).as_node_weight_pairs(), c2.as_node_weight_pairs()), "GaussChebyshevSecondKind::par_new({n})");
            for (u, v) in [(l.integrate(-1.0, 2.0, g), l.par_integrate(-1.0, 2.0, g)), (c1.integrate(-1.0, 2.0, g), c1.par_integrate(-1.0, 2.0, g)), (c2.integrate(-1.0, 2.0, g), c2.par_integrate(-1.0, 2.0, g))] {
                assert!((u - v).abs() <= 1e-12, "par_integrate at degree {n}: {u} {v}");
            }
        }
        o.line(&format!("special n={n}"), "exact", [f64::NAN, f64::INFINITY, f64::NEG_INFINITY].map(|v| l.integrate(3.0, 4.0, |x| if x > 3.5 { v } else { 0.0 })));
        for (s, i) in [("GaussLegendre", l.integrate(5.0, -2.0, g)), ("GaussChebyshevFirstKind", c1.integrate(5.0, -2.0, g)), ("GaussChebyshevSecondKind", c2.integrate(5.0, -2.0, g))] {
            o.line(&format!("{s} n={n} reversed"), "integral", [i]);
        }
        if n > max && ![64, 97, 100, 101, 128].contains(&n) {
            continue;
        }
        gauss!(o, format!("GaussHermite n={n}"), GaussHermite::new(z), |r: &GaussHermite| r.integrate(g));
        for a in [0.0, -0.5, 0.5, 1.0, 1.5, 7.25, -0.999, 30.0, 100.0, 154.5, 170.0] {
            let r = gauss!(o, format!("GaussLaguerre({a}) n={n}"), GaussLaguerre::new(z, p(a)), |r: &GaussLaguerre| r.integrate(g));
            o.line(&format!("GaussLaguerre({a}) n={n}"), "exact", [r.alpha().get()]);
        }
        for (a, b) in [(1.0, 1.0), (-0.25, -0.25), (0.5, 1.5), (2.0, -0.75), (-0.3, -0.7), (10.0, 3.0), (-0.999, 0.0), (0.0, 1.0), (1.0, 0.0), (-0.5, 0.5), (0.5, -0.5), (1e-9, 0.0), (50.0, 20.5), (80.0, 50.0)] {
            let r = gauss!(o, format!("GaussJacobi({a},{b}) n={n}"), GaussJacobi::new(z, p(a), p(b)), |r: &GaussJacobi| r.integrate(-1.0, 2.0, g));
            o.line(&format!("GaussJacobi({a},{b}) n={n}"), "exact", [r.alpha().get(), r.beta().get()]);
        }
    }
    for n in (1..=8 * max as u32).chain([1000, 65_537, 1_000_003]) {
        let z = NonZeroU32::new(n).unwrap();
        let (m, t, s) = (Midpoint::new(z), Trapezoid::new(z), Simpson::new(z));
        o.line(&format!("composite n={n}"), "integral", [m.integrate(-1.0, 2.0, g), t.integrate(-1.0, 2.0, g), s.integrate(-1.0, 2.0, g)]);
        o.line(&format!("composite n={n}"), "exact", [m.degree().get() as f64, t.degree().get() as f64, s.degree().get() as f64, m.iter().len() as f64, t.iter().sum::<f64>(), s.iter().rev().next().unwrap()]);
        #[cfg(feature = "rayon")]
        for (u, v) in [(m.integrate(-1.0, 2.0, g), m.par_integrate(-1.0, 2.0, g)), (t.integrate(-1.0, 2.0, g), t.par_integrate(-1.0, 2.0, g)), (s.integrate(-1.0, 2.0, g), s.par_integrate(-1.0, 2.0, g))] {
            assert!((u - v).abs() <= 1e-10, "composite par_integrate at degree {n}: {u} {v}");
        }
    }
    // parameter arithmetic and text
    let vals = [0.0, -0.0, 0.5, -0.5, 1.0, -0.75, 3.0, 1e10, 170.5, 5e-324, f64::MAX, 0.1, -1.0 + 1e-16, 1e-300];
    let none = |x: Option<FiniteAboveNegOneF64>| x.map_or(f64::NAN, |p| p.get());
    for a in vals.map(p) {
        for b in vals.into_iter().chain([-1.0, -2.0, f64::INFINITY, f64::NEG_INFINITY]) {
            let name = format!("parameter {} {b}", a.get());
            o.line(&name, "exact", [a.checked_add(b), a.checked_sub(b), a.checked_mul(b), a.checked_div(b), FiniteAboveNegOneF64::new(b)].map(none));
            // results of pow at the edge of what is admissible depend on the backend
            let e = a.get().powf(b);
            if !(e.abs() > 1e308 && e.is_finite()) && (e + 1.0).abs() > 1e-9 {
                o.line(&name, "pow", [none(a.checked_pow(b))]);
            }
        }
        let t = format!("{a} {a:e} {a:E}");
        o.line(&format!("text {t}"), "exact", t.split(' ').map(|s| s.parse::<FiniteAboveNegOneF64>().map_or(f64::NAN, |p| p.get())));
    }
    features();
    print!("{}", o.0);
}

/// the traits each feature promises, for every public type (checked by the compiler)
fn features() {
    #[allow(unused_macros)]
    macro_rules! all {
        ($f:ident) => {{
            $f::<GaussLegendre>();
            $f::<GaussHermite>();
            $f::<GaussLaguerre>();
            $f::<GaussJacobi>();
            $f::<GaussChebyshevFirstKind>();
            $f::<GaussChebyshevSecondKind>();
        }};
    }
    fn plain<T: Clone + PartialEq + std::fmt::Debug + Send + Sync + Unpin + std::panic::UnwindSafe + std::panic::RefUnwindSafe + 'static>() {}
    all!(plain);
    plain::<Midpoint>();
    plain::<Trapezoid>();
    plain::<Simpson>();
    plain::<FiniteAboveNegOneF64>();
    #[cfg(feature = "serde")]
    {
        fn s<T: serde::Serialize + serde::de::DeserializeOwned>() {}
        all!(s);
        s::<Midpoint>();
        s::<Trapezoid>();
        s::<Simpson>();
        s::<FiniteAboveNegOneF64>();
    }
    #[cfg(feature = "rkyv")]
    {
        fn s<T: rkyv::Archive>()
        where
            T: for<'a> rkyv::Serialize<rkyv::api::high::HighSerializer<rkyv::util::AlignedVec, rkyv::ser::allocator::ArenaHandle<'a>, rkyv::rancor::Error>>,
            T::Archived: rkyv::Deserialize<T, rkyv::api::high::HighDeserializer<rkyv::rancor::Error>>,
        {
        }
        all!(s);
        s::<Midpoint>();
        s::<Trapezoid>();
        s::<Simpson>();
        s::<FiniteAboveNegOneF64>();
    }
    #[cfg(feature = "zerocopy")]
    {
        fn s<T: zerocopy::KnownLayout>() {}
        all!(s);
        fn f<T: zerocopy::KnownLayout + zerocopy::Immutable + zerocopy::FromZeros + zerocopy::IntoBytes>() {}
        f::<FiniteAboveNegOneF64>();
    }
}
