//! C20: integration and formatting are total, whatever the bounds, the answers and the writer.
use crate::exact::EPS;
use crate::integ::{fams_c07, two};
use crate::laws::{Any, Spec};
use crate::rules::*;
use gauss_quad::*;
use mc_core::run::{Obs, Run, panic_message};
use serde_json::json;
use std::fmt::{self, Debug, Display, LowerExp, UpperExp, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
#[cfg(feature = "full")]
use std::sync::Mutex;

/// every kind of double
const ENDS: [f64; 28] = [
    f64::NAN,
    -f64::NAN,
    f64::INFINITY,
    f64::NEG_INFINITY,
    0.0,
    -0.0,
    1.0,
    -1.0,
    2.5,
    1.0 + EPS,
    0.1,
    -7.0,
    5e-324,
    -5e-324,
    1e-310,
    f64::MIN_POSITIVE,
    -1e-300,
    1e-8,
    9007199254740993.0,
    -1e15,
    1e160,
    -1e200,
    1e307,
    8e307,
    -9e307,
    1.7e308,
    f64::MAX,
    -f64::MAX,
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ans {
    /// small enough for every integral to be representable
    Small,
    /// 1, for integrals that are representable themselves
    One,
    Alternate,
    Huge,
    Zero,
    Nan,
    Inf,
    /// infinities of both signs
    Both,
    /// its own argument
    Arg,
}
const ANS: [Ans; 9] = [Ans::Small, Ans::One, Ans::Alternate, Ans::Huge, Ans::Zero, Ans::Nan, Ans::Inf, Ans::Both, Ans::Arg];
impl Ans {
    fn at(self, x: f64) -> f64 {
        let odd = x.to_bits().count_ones() % 2 == 1;
        match self {
            Ans::Small => two(-80),
            Ans::One => 1.0,
            Ans::Alternate => if odd { 1.0 } else { -1.0 },
            Ans::Huge => if odd { f64::MAX } else { -f64::MAX },
            Ans::Zero => if odd { 0.0 } else { -0.0 },
            Ans::Nan => f64::NAN,
            Ans::Inf => f64::INFINITY,
            Ans::Both => if odd { f64::INFINITY } else { f64::NEG_INFINITY },
            Ans::Arg => x,
        }
    }
}

struct Seen {
    xs: Vec<f64>,
    res: Result<f64, String>,
}
fn sequential(r: &Any, a: f64, b: f64, f: Ans) -> Seen {
    let mut xs = vec![];
    let res = catch_unwind(AssertUnwindSafe(|| {
        r.integrate(a, b, &mut |x| {
            xs.push(x);
            f.at(x)
        })
    }))
    .map_err(|p| panic_message(&*p));
    Seen { xs, res }
}
#[cfg(feature = "full")]
fn parallel(r: &Any, a: f64, b: f64, f: Ans) -> Seen {
    let xs = Mutex::new(vec![]);
    let res = catch_unwind(AssertUnwindSafe(|| {
        r.par_integrate(a, b, &|x| {
            xs.lock().unwrap().push(x);
            f.at(x)
        })
    }))
    .map_err(|p| panic_message(&*p));
    Seen { xs: xs.into_inner().unwrap(), res }
}

/// `count`: how often the integrand is called; `total`: sum of the weights relative to half the width
fn check(s: &Seen, count: usize, total: f64, finite_domain: bool, a: f64, b: f64, f: Ans) -> Result<(), String> {
    let v = s.res.as_ref().map_err(|p| format!("panics: {p}"))?;
    if s.xs.len() != count {
        return Err(format!("calls the integrand {} times, {count} times for other bounds", s.xs.len()));
    }
    if !finite_domain {
        return Ok(());
    }
    if a.is_nan() || b.is_nan() {
        return if v.is_nan() { Ok(()) } else { Err(format!("gives {v:?} although a bound is NaN")) };
    }
    if a.is_infinite() || b.is_infinite() {
        return if v.is_finite() { Err(format!("gives the finite {v:?} although a bound is infinite")) } else { Ok(()) };
    }
    let (half, n) = (0.5 * b - 0.5 * a, count as f64);
    if (b - a).is_finite() {
        let slack = 8.0 * EPS * a.abs().max(b.abs()) + (16.0 + 4.0 * n) * 5e-324;
        // the sum may be the next one above the largest double
        let inside = |x: f64| x >= a.min(b) - slack && x <= a.max(b) + slack || x.is_infinite() && (a.abs().max(b.abs()) > 1.79e308);
        if let Some(x) = s.xs.iter().find(|x| !inside(**x)) {
            return Err(format!("calls the integrand at {x:?}"));
        }
    }
    let constant = match f {
        Ans::Small => two(-80),
        // leave room for the sum to be rounded up, and for (6 sum) h / 6 instead of h / 6 (6 sum)
        Ans::One if (half * two(-10) * total).abs() < two(1010) => 1.0,
        _ => return Ok(()),
    };
    // a width that overflows may be refused with a result that is not finite, but not be guessed
    if !((b - a).is_infinite() && !v.is_finite()) {
        let want = constant * (total * half);
        let tol = (n + 40.0) * 4.0 * EPS * want.abs() + (n + 16.0) * 1e-320;
        if !((v - want).abs() <= tol) {
            return Err(format!("gives {v:?} for the constant {constant:?}, which integrates to {want:?}"));
        }
    }
    Ok(())
}

pub fn c20(r: &Run) {
    let mut specs: Vec<Spec> = vec![];
    let top = r.pick(40, 130);
    for f in fams_c07() {
        specs.extend((1..=top).chain([100, 101, 128]).map(|n| Spec::G(f, n)));
    }
    for k in NCS {
        specs.extend((1..=top as u32).chain([100, 101, 1000, 4097]).map(|n| Spec::N(k, n)));
    }
    specs.reverse();
    r.rule(format!("every rule at degrees 1..={top} and some larger ones, every ordered pair of {} bounds (NaN, infinities, zeros, subnormal to largest), {} kinds of answers: sequential (and, in the full build, parallel) integration returns, with as many calls as for ordinary bounds, NaN for a NaN bound, nothing finite for an infinite one, samples inside the interval and the right integral of a constant otherwise; a case is one rule and degree, an evaluation one integral", ENDS.len(), ANS.len()));
    r.cases(&specs, |s| format!("{} special bounds", s.key()), |s, o| {
        let rule = Any::new(s);
        let finite = !matches!(s, Spec::G(f, _) if !f.finite());
        let (count, total) = match s {
            Spec::G(f, n) => (*n, f.build(*n).pairs().iter().map(|p| p.1).sum()),
            Spec::N(Nc::Mid, n) => (*n as usize, 2.0),
            Spec::N(Nc::Trap, n) => (*n as usize + 1, 2.0),
            Spec::N(Nc::Simp, n) => (2 * *n as usize + 1, 2.0),
        };
        #[cfg(feature = "full")]
        let few = count <= 24 || count > 90 && r.thorough;
        for &a in if finite { &ENDS[..] } else { &ENDS[..1] } {
            for &b in if finite { &ENDS[..] } else { &ENDS[..1] } {
                o.distinct(&(a.to_bits(), b.to_bits()));
                for f in ANS {
                    o.eval();
                    if let Err(e) = check(&sequential(&rule, a, b, f), count, total, finite, a, b, f) {
                        return o.fail(format!("{} from {a:?} to {b:?} with the integrand {f:?} {e}", s.key()), s.ctor());
                    }
                    #[cfg(feature = "full")]
                    if few && (count <= 6 || matches!(f, Ans::One | Ans::Arg | Ans::Nan)) || !few && f == Ans::One && (r.thorough || count > 90) {
                        o.eval();
                        if let Err(e) = check(&parallel(&rule, a, b, f), count, total, finite, a, b, f) {
                            return o.fail(format!("{} in parallel from {a:?} to {b:?} with the integrand {f:?} {e}", s.key()), s.ctor());
                        }
                    }
                }
            }
        }
        o.sample(json!({"rule": s.key(), "calls_per_integral": count, "pairs_of_bounds": if finite { ENDS.len() * ENDS.len() } else { 1 }}));
    });
    formatting(r);
    small_stack(r);
}

// ---- formatting ----------------------------------------------------------------------------------------------------

/// a writer that fails when more than `left` bytes arrive
struct Full {
    left: usize,
    text: String,
}
impl Write for Full {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left {
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.text.push_str(s);
        Ok(())
    }
}
fn shown(what: &str, how: &str, go: &dyn Fn(&mut Full) -> fmt::Result, steps: usize, o: &mut Obs) {
    let src = || format!("{what} formatted with {how}");
    let run = |left: usize| {
        let mut w = Full { left, text: String::new() };
        catch_unwind(AssertUnwindSafe(|| (go(&mut w), w))).map_err(|p| panic_message(&*p))
    };
    o.eval();
    let full = match run(usize::MAX) {
        Err(p) => return o.fail(format!("{what}: {how} panics: {p}"), src()),
        Ok((Err(_), _)) => return o.fail(format!("{what}: {how} fails although the writer does not"), src()),
        Ok((Ok(()), w)) => w.text,
    };
    o.distinct(&(what, how));
    let n = full.len();
    // every point at which the writer can fail (an initial and a final stretch of long texts)
    let at: Vec<usize> = if n <= steps { (0..n).collect() } else { (0..steps / 2).chain(n - steps / 2..n).collect() };
    for left in at {
        o.eval();
        match run(left) {
            Err(p) => return o.fail(format!("{what}: {how} panics when the writer fails after {left} bytes: {p}"), src()),
            Ok((Ok(()), _)) => return o.fail(format!("{what}: {how} reports success although the writer failed after {left} bytes"), src()),
            Ok((Err(_), w)) if !full.starts_with(&w.text) => return o.fail(format!("{what}: {how} wrote {:?}, not the beginning of {full:?}", w.text), src()),
            _ => {}
        }
    }
}
macro_rules! with {
    ($what:expr, $x:expr, $steps:expr, $o:expr, $($s:literal),*) => {
        $(shown($what, $s, &|w| write!(w, $s, $x), $steps, $o);)*
    };
}
fn debug<T: Debug + ?Sized>(what: &str, x: &T, steps: usize, o: &mut Obs) {
    with!(what, x, steps, o, "{:?}", "{:#?}", "{:9.3?}", "{:+?}", "{:<60?}", "{:#07.0?}", "{:e<5.17?}", "{:x?}", "{:#X?}");
    shown(what, "{:?} of a nested value", &|w| write!(w, "{:#?}", (Some(x), [x])), steps.min(16), o);
}
fn display<T: Display + ?Sized>(what: &str, x: &T, steps: usize, o: &mut Obs) {
    with!(what, x, steps, o, "{}", "{:#}", "{:40}", "{:<40}", "{:^7}", "{:+}", "{:.0}", "{:.3}", "{:.400}", "{:012.5}", "{:*>23.0}");
}
fn exponent<T: LowerExp + UpperExp + Display + Debug>(what: &str, x: &T, steps: usize, o: &mut Obs) {
    for n in (0..=48).chain([64, 100, 128, 256, 300, 324, 325, 512, 700, 1074, 1100, 4096, 65_535]) {
        let few = steps.min(16);
        shown(what, &format!("{{:.{n}}}"), &|w| write!(w, "{:.*}", n, x), few, o);
        shown(what, &format!("{{:.{n}e}}"), &|w| write!(w, "{:.*e}", n, x), few, o);
        shown(what, &format!("{{:+.{n}E}}"), &|w| write!(w, "{:+.*E}", n, x), few, o);
        shown(what, &format!("{{:>{n}}}"), &|w| write!(w, "{:>1$}", x, n), few, o);
        shown(what, &format!("{{:0{n}.5e}}"), &|w| write!(w, "{:01$.5e}", x, n), few, o);
        shown(what, &format!("{{:^{n}.30E}}"), &|w| write!(w, "{:^1$.30E}", x, n), few, o);
        shown(what, &format!("{{:{n}.{n}?}}"), &|w| write!(w, "{:1$.1$?}", x, n), few, o);
    }
    with!(what, x, steps, o, "{:e}", "{:E}", "{:.0e}", "{:.40E}", "{:+e}", "{:30e}", "{:<030E}");
}
macro_rules! gauss {
    ($what:expr, $r:expr, $steps:expr, $o:expr) => {{
        let r = $r;
        debug($what, &r, $steps, $o);
        debug(&format!("nodes of {}", $what), &r.nodes(), $steps, $o);
        debug(&format!("weights of {}", $what), &r.weights(), $steps, $o);
        debug(&format!("iter of {}", $what), &r.iter(), $steps, $o);
        let mut half = r.clone().into_iter();
        debug(&format!("into_iter of {}", $what), &half, $steps, $o);
        half.next();
        half.next_back();
        debug(&format!("into_iter of {}, advanced", $what), &half, $steps, $o);
    }};
}

fn formatting(r: &Run) {
    let degs = r.pick(vec![1usize, 2, 3, 10, 101], vec![1, 2, 3, 4, 10, 33, 101, 500]);
    let steps = r.pick(64, 400);
    r.rule(format!("rules of degree {degs:?} with their iterators (fresh and advanced), parameters and errors: every format trait with width, precision, sign and alternate flags, and a writer failing at every byte (the first and last {} of longer texts): no panic, the error reported, nothing but a prefix written", steps / 2));
    r.cases(&degs, |n| format!("formatting rules of degree {n}"), |&n, o| {
        let z = nzu(n);
        let p = |x| par(x);
        gauss!("GaussLegendre", GaussLegendre::new(z), steps, o);
        gauss!("GaussHermite", GaussHermite::new(z), steps, o);
        gauss!("GaussLaguerre", GaussLaguerre::new(z, p(1e-300)), steps, o);
        gauss!("GaussJacobi", GaussJacobi::new(z, p(-0.999), p(17.25)), steps, o);
        gauss!("GaussJacobi of Legendre", GaussJacobi::new(z, p(0.0), p(-0.0)), steps, o);
        gauss!("GaussChebyshevFirstKind", GaussChebyshevFirstKind::new(z), steps, o);
        gauss!("GaussChebyshevSecondKind", GaussChebyshevSecondKind::new(z), steps, o);
        for m in [n as u32, u32::MAX - n as u32 + 1] {
            let (mid, trap, simp) = (Midpoint::new(nz32(m)), Trapezoid::new(nz32(m)), Simpson::new(nz32(m)));
            debug("Midpoint", &mid, steps, o);
            debug("Trapezoid", &trap, steps, o);
            debug("Simpson", &simp, steps, o);
            let (mut i, mut j, mut k) = (mid.iter(), trap.iter(), simp.iter());
            for _ in 0..3 {
                debug("iter of Midpoint", &i, steps, o);
                debug("iter of Trapezoid", &j, steps, o);
                debug("iter of Simpson", &k, steps, o);
                let _ = (i.next(), j.next(), k.next_back(), k.next());
            }
        }
    });
    let vals = [0.0, -0.0, 5e-324, f64::MIN_POSITIVE, 0.1, 1.0, 1e15, 1e16, 1e17, 123456.789, f64::MAX, -0.5, -1.0 + EPS / 2.0, 1e-5, 1e-7, 1e21];
    r.cases(&vals, |v| format!("formatting the parameter {v:?}"), |&v, o| {
        let p = par(v);
        debug("a parameter", &p, 4000, o);
        display("a parameter", &p, 4000, o);
        exponent("a parameter", &p, 4000, o);
    });
    let texts = ["", "x", "-1", "nan", "-inf", "1e999", "--1", "1_0", " 1"];
    r.cases(&texts, |s| format!("formatting the error for {s:?}"), |&s, o| {
        if let Err(e) = s.parse::<FiniteAboveNegOneF64>() {
            debug("a parse error", &e, 4000, o);
            display("a parse error", &e, 4000, o);
            let mut src: Option<&dyn std::error::Error> = Some(&e);
            let mut depth = 0;
            while let Some(x) = src {
                debug("a source of a parse error", x, 4000, o);
                display("a source of a parse error", x, 4000, o);
                depth += 1;
                if depth > 20 {
                    return o.fail(format!("the chain of sources of the error for {s:?} does not end"), s);
                }
                src = x.source();
            }
        }
        if let Err(e) = FiniteAboveNegOneF64::try_from(f64::NAN) {
            debug("a range error", &e, 4000, o);
            display("a range error", &e, 4000, o);
        }
    });
}

/// what is done with a large rule needs no more stack than with a small one
fn small_stack(r: &Run) {
    const KIB: usize = 256;
    let mut specs = vec![];
    for n in [1000usize, 30_000, r.pick(500_000, 3_000_000)] {
        specs.extend([Fam::Legendre, Fam::Cheb1, Fam::Cheb2].map(|f| Spec::G(f, n)));
        specs.extend(NCS.map(|k| Spec::N(k, n as u32)));
    }
    for n in [60usize, r.pick(200, 400)] {
        specs.extend([Fam::Hermite, Fam::Laguerre(0.5), Fam::Jacobi(0.5, 1.5), Fam::Jacobi(0.0, 0.0)].map(|f| Spec::G(f, n)));
    }
    r.rule(format!("{} rules of up to {} nodes: built, integrated, cloned, compared, iterated and formatted by a thread with a stack of {KIB} KiB", specs.len(), r.pick(500_000, 3_000_000)));
    r.cases(&specs, |s| format!("small stack {}", s.key()), |s, o| {
        o.distinct(&s.key());
        let run = || -> Result<u64, String> {
            let rule = Any::new(s);
            let f = |x: f64| 1.0 / (1.0 + x * x);
            let mut calls = 0u64;
            let v = rule.integrate(-1.0, 2.0, &mut |x| {
                calls += 1;
                f(x)
            });
            if !v.is_finite() {
                return Err(format!("integral of 1/(1+x^2) from -1 to 2 is {v:?}"));
            }
            match &rule {
                Any::G(_, n, g) => {
                    let c = g.clone_box();
                    if g.eq_box(&*c) != Some(true) {
                        return Err("a clone differs".into());
                    }
                    if (g.nodes().len(), g.weights().len(), g.pairs().len(), g.degree()) != (*n, *n, *n, *n) {
                        return Err("the number of nodes is not the degree".into());
                    }
                    macro_rules! each {
                        ($($t:ty)*) => {$(
                            if let Some(t) = g.any().downcast_ref::<$t>() {
                                let mut out = Full { left: usize::MAX, text: String::new() };
                                write!(out, "{t:?}").map_err(|_| "formatting fails")?;
                                let last = t.clone().into_iter().last();
                                if t.clone().into_iter().count() != *n || last.as_ref() != t.as_node_weight_pairs().last() {
                                    return Err("the owned iterator ends elsewhere".into());
                                }
                                drop(t.clone().into_node_weight_pairs());
                            }
                        )*};
                    }
                    each!(GaussLegendre GaussHermite GaussLaguerre GaussJacobi GaussChebyshevFirstKind GaussChebyshevSecondKind);
                }
                Any::N(_, _, k) => {
                    if *k != k.clone() {
                        return Err("a clone differs".into());
                    }
                }
            }
            Ok(calls)
        };
        // an overflow of the stack ends this process, which is reported with this case
        let got = std::thread::scope(|t| std::thread::Builder::new().stack_size(KIB << 10).spawn_scoped(t, || catch_unwind(AssertUnwindSafe(run))).expect("cannot start a thread").join());
        o.eval();
        match got {
            Ok(Ok(Ok(calls))) => o.sample(json!({"rule": s.key(), "stack_kib": KIB, "calls": calls})),
            Ok(Ok(Err(e))) => o.fail(format!("{}: {e}", s.key()), s.ctor()),
            Ok(Err(p)) => o.fail(format!("{} panics: {}", s.key(), panic_message(&*p)), s.ctor()),
            Err(_) => o.fail(format!("{}: the thread ends with a panic", s.key()), s.ctor()),
        }
    });
}
