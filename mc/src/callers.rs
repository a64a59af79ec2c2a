//! C15: an integral depends on the answers of the integrand, never on what type the integrand has or on which
//! integrands were seen before. Every ordered pair of calls over an alphabet of integrand types.
use crate::integ::fams_c07;
use crate::laws::{Any, Spec};
use crate::rules::*;
use gauss_quad::*;
use mc_core::run::{Obs, Run};
use serde_json::json;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

thread_local! {
    static WHICH: Cell<usize> = const { Cell::new(0) };
    /// number of calls and a hash of the samples that does not depend on their order
    static SEEN: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
    static DROPS: Cell<u64> = const { Cell::new(0) };
}
fn answer(k: usize, x: f64) -> f64 {
    SEEN.with(|s| {
        let (n, h) = s.get();
        s.set((n + 1, h.wrapping_add((x.to_bits() ^ 0x9e37_79b9_7f4a_7c15).wrapping_mul(0xff51_afd7_ed55_8ccd))));
    });
    match k {
        0 => 1.0 / (3.0 + x * x),
        1 => 2.0 - 0.3 * x,
        _ => -0.7,
    }
}
fn current(x: f64) -> f64 {
    answer(WHICH.get(), x)
}
fn fixed<const K: usize>(x: f64) -> f64 {
    answer(K, x)
}
struct Guard(usize);
impl Drop for Guard {
    fn drop(&mut self) {
        DROPS.set(DROPS.get() + 1);
    }
}

fn call<F: FnMut(f64) -> f64>(rule: &Any, a: f64, b: f64, f: F) -> f64 {
    match rule {
        Any::G(_, _, r) => {
            let r = r.any();
            if let Some(r) = r.downcast_ref::<GaussLegendre>() {
                r.integrate(a, b, f)
            } else if let Some(r) = r.downcast_ref::<GaussJacobi>() {
                r.integrate(a, b, f)
            } else if let Some(r) = r.downcast_ref::<GaussChebyshevFirstKind>() {
                r.integrate(a, b, f)
            } else if let Some(r) = r.downcast_ref::<GaussChebyshevSecondKind>() {
                r.integrate(a, b, f)
            } else if let Some(r) = r.downcast_ref::<GaussHermite>() {
                r.integrate(f)
            } else {
                r.downcast_ref::<GaussLaguerre>().unwrap().integrate(f)
            }
        }
        Any::N(_, _, NcRule::Mid(r)) => r.integrate(a, b, f),
        Any::N(_, _, NcRule::Trap(r)) => r.integrate(a, b, f),
        Any::N(_, _, NcRule::Simp(r)) => r.integrate(a, b, f),
    }
}

const TYPES: [&str; 13] = [
    "a function",
    "a function per integrand",
    "a closure without captures",
    "one of three closures without captures",
    "a function pointer",
    "a closure with a byte",
    "a closure with a double",
    "a closure with 64 doubles",
    "a closure with a mutable reference",
    "a boxed closure",
    "a closure with shared ownership of a cell",
    "a reference to a closure that changes its state",
    "a closure that owns something to be dropped",
];
/// integrates integrand k as type t
fn typed(rule: &Any, t: usize, k: usize, a: f64, b: f64) -> f64 {
    WHICH.set(k);
    match t {
        0 => call(rule, a, b, current),
        1 => match k {
            0 => call(rule, a, b, fixed::<0>),
            1 => call(rule, a, b, fixed::<1>),
            _ => call(rule, a, b, fixed::<2>),
        },
        2 => call(rule, a, b, |x| answer(WHICH.get(), x)),
        3 => match k {
            0 => call(rule, a, b, |x| answer(0, x)),
            1 => call(rule, a, b, |x| answer(1, x)),
            _ => call(rule, a, b, |x| answer(2, x)),
        },
        4 => call(rule, a, b, [fixed::<0> as fn(f64) -> f64, fixed::<1>, fixed::<2>][k]),
        5 => {
            let c = k as u8;
            call(rule, a, b, move |x| answer(c as usize, x))
        }
        6 => {
            let c = k as f64;
            call(rule, a, b, move |x| answer(c as usize, x))
        }
        7 => {
            // only the last one tells
            let mut c = [1.0f64; 64];
            c[63] = k as f64;
            call(rule, a, b, move |x| answer(c[63] as usize + (c[0] - c[1]) as usize, x))
        }
        8 => {
            let mut n = 0u64;
            let c = k;
            let v = call(rule, a, b, |x| {
                n += 1;
                answer(c, x)
            });
            std::hint::black_box(n);
            v
        }
        9 => {
            let f: Box<dyn FnMut(f64) -> f64> = Box::new(move |x| answer(k, x));
            call(rule, a, b, f)
        }
        10 => {
            let c = Rc::new(RefCell::new(k));
            let d = c.clone();
            call(rule, a, b, move |x| answer(*d.borrow(), x))
        }
        11 => {
            let mut n = 0u64;
            let mut f = |x: f64| {
                n += 1;
                answer(k, x)
            };
            call(rule, a, b, &mut f)
        }
        _ => {
            let g = Guard(k);
            call(rule, a, b, move |x| answer(g.0, x))
        }
    }
}

pub fn specs(degrees: &[usize]) -> Vec<Spec> {
    let mut v = vec![];
    for &n in degrees {
        for f in fams_c07() {
            v.push(Spec::G(f, n));
        }
        for k in NCS {
            v.push(Spec::N(k, n as u32));
        }
    }
    v
}

pub fn run(r: &Run) {
    let specs = specs(&r.pick(vec![1, 2, 3, 8, 17, 130], vec![1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 33, 64, 65, 101, 130]));
    const BOUNDS: [(f64, f64); 3] = [(-1.0, 2.0), (2.0, -1.0), (-1.0, 1.0)];
    let mut calls = vec![];
    for t in 0..TYPES.len() {
        for k in 0..3 {
            for (a, b) in BOUNDS {
                calls.push((t, k, a, b));
            }
        }
    }
    r.rule(format!("{} types of integrands (functions, function pointers, closures without captures and with captures of several sizes, references, boxes, closures that own something) times 3 integrands times 3 pairs of bounds: every ordered pair of those calls in one process, for {} rules; result, number and set of samples are those of a plain call, and whatever the integrand owns is dropped once", TYPES.len(), specs.len()));
    r.cases(&specs, |s| format!("integrand types {}", s.key()), |s, o: &mut Obs| {
        let rule = Any::new(s);
        let once = |f: &mut dyn FnMut() -> f64| {
            SEEN.set((0, 0));
            DROPS.set(0);
            let v = f();
            (v.to_bits(), SEEN.get(), DROPS.get())
        };
        // the plain calls come first
        let want: Vec<_> = calls
            .iter()
            .map(|&(t, k, a, b)| {
                let mut w = once(&mut || rule.integrate(a, b, &mut |x| answer(k, x)));
                w.2 = (t == 12) as u64;
                w
            })
            .collect();
        for (i, &(t, k, a, b)) in calls.iter().enumerate() {
            for (j, &(u, l, c, d)) in calls.iter().enumerate() {
                for (m, (t, k, a, b), before) in [(i, (t, k, a, b), None), (j, (u, l, c, d), Some((t, k, a, b)))] {
                    let got = once(&mut || typed(&rule, t, k, a, b));
                    o.evals += 1;
                    o.transitions += 1;
                    if got != want[m] {
                        let hist = before.map(|(t, k, a, b)| format!(" after integrand {k} from {a:?} to {b:?} as {}", TYPES[t])).unwrap_or_default();
                        return o.fail(
                            format!("{}: integrand {k} from {a:?} to {b:?}, passed as {}{hist}, gives {:?} from {} calls and is dropped {} times; passed as a plain closure {:?} from {} calls", s.key(), TYPES[t], f64::from_bits(got.0), got.1.0, got.2, f64::from_bits(want[m].0), want[m].1.0),
                            format!("let rule = {};", s.ctor()),
                        );
                    }
                }
                o.traces += 1;
            }
            o.distinct(&(t, k, a.to_bits(), b.to_bits()));
        }
        o.sample(json!({"rule": s.key(), "calls": calls.len(), "plain": f64::from_bits(want[0].0)}));
    });
    #[cfg(feature = "full")]
    parallel::run(r);
}

#[cfg(feature = "full")]
mod parallel {
    use super::*;
    use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
    use std::sync::{Arc, Mutex};
    static WHICH: AtomicUsize = AtomicUsize::new(0);
    static COUNT: AtomicU64 = AtomicU64::new(0);
    static DROPS: AtomicU64 = AtomicU64::new(0);
    fn answer(k: usize, x: f64) -> f64 {
        COUNT.fetch_add(1, SeqCst);
        match k {
            0 => 1.0 / (3.0 + x * x),
            1 => 2.0 - 0.3 * x,
            _ => -0.7,
        }
    }
    fn current(x: f64) -> f64 {
        answer(WHICH.load(SeqCst), x)
    }
    fn fixed<const K: usize>(x: f64) -> f64 {
        answer(K, x)
    }
    struct Guard(usize);
    impl Drop for Guard {
        fn drop(&mut self) {
            DROPS.fetch_add(1, SeqCst);
        }
    }
    fn call<F: Fn(f64) -> f64 + Sync>(rule: &Any, a: f64, b: f64, f: F) -> f64 {
        match rule {
            Any::G(_, _, r) => {
                let r = r.any();
                if let Some(r) = r.downcast_ref::<GaussLegendre>() {
                    r.par_integrate(a, b, f)
                } else if let Some(r) = r.downcast_ref::<GaussJacobi>() {
                    r.par_integrate(a, b, f)
                } else if let Some(r) = r.downcast_ref::<GaussChebyshevFirstKind>() {
                    r.par_integrate(a, b, f)
                } else if let Some(r) = r.downcast_ref::<GaussChebyshevSecondKind>() {
                    r.par_integrate(a, b, f)
                } else if let Some(r) = r.downcast_ref::<GaussHermite>() {
                    r.par_integrate(f)
                } else {
                    r.downcast_ref::<GaussLaguerre>().unwrap().par_integrate(f)
                }
            }
            Any::N(_, _, NcRule::Mid(r)) => r.par_integrate(a, b, f),
            Any::N(_, _, NcRule::Trap(r)) => r.par_integrate(a, b, f),
            Any::N(_, _, NcRule::Simp(r)) => r.par_integrate(a, b, f),
        }
    }
    const TYPES: [&str; 9] = [
        "a function",
        "a function per integrand",
        "a closure without captures",
        "a function pointer",
        "a closure with a byte",
        "a closure with 64 doubles",
        "a boxed closure",
        "a closure with a mutex",
        "a closure that owns something to be dropped",
    ];
    fn typed(rule: &Any, t: usize, k: usize, a: f64, b: f64) -> f64 {
        WHICH.store(k, SeqCst);
        match t {
            0 => call(rule, a, b, current),
            1 => match k {
                0 => call(rule, a, b, fixed::<0>),
                1 => call(rule, a, b, fixed::<1>),
                _ => call(rule, a, b, fixed::<2>),
            },
            2 => call(rule, a, b, |x| answer(WHICH.load(SeqCst), x)),
            3 => call(rule, a, b, [fixed::<0> as fn(f64) -> f64, fixed::<1>, fixed::<2>][k]),
            4 => {
                let c = k as u8;
                call(rule, a, b, move |x| answer(c as usize, x))
            }
            5 => {
                let mut c = [1.0f64; 64];
                c[63] = k as f64;
                call(rule, a, b, move |x| answer(c[63] as usize + (c[0] - c[1]) as usize, x))
            }
            6 => {
                let f: Box<dyn Fn(f64) -> f64 + Sync> = Box::new(move |x| answer(k, x));
                call(rule, a, b, f)
            }
            7 => {
                let c = Arc::new(Mutex::new(k));
                let d = c.clone();
                call(rule, a, b, move |x| answer(*d.lock().unwrap(), x))
            }
            _ => {
                let g = Guard(k);
                call(rule, a, b, move |x| answer(g.0, x))
            }
        }
    }
    pub fn run(r: &Run) {
        let all = specs(&r.pick(vec![2, 3, 17, 130], vec![1, 2, 3, 5, 8, 17, 33, 64, 130]));
        const BOUNDS: [(f64, f64); 2] = [(-1.0, 2.0), (2.0, -1.0)];
        let mut calls = vec![];
        for t in 0..TYPES.len() {
            for k in 0..3 {
                for (a, b) in BOUNDS {
                    calls.push((t, k, a, b));
                }
            }
        }
        r.rule(format!("the same for parallel integration with {} types of integrands that can be shared, results up to the rounding of another order of summation", TYPES.len()));
        // the counters are shared, so this is one case
        r.cases(&[()], |_| "integrand types in parallel".into(), |_, o: &mut Obs| {
            for s in &all {
                let rule = Any::new(s);
                let once = |f: &mut dyn FnMut() -> f64| {
                    for c in [&COUNT, &DROPS] {
                        c.store(0, SeqCst);
                    }
                    let v = f();
                    (v, COUNT.load(SeqCst), DROPS.load(SeqCst))
                };
                let want: Vec<_> = calls
                    .iter()
                    .map(|&(t, k, a, b)| {
                        let mut w = once(&mut || rule.par_integrate(a, b, &|x| answer(k, x)));
                        w.2 = (t == 8) as u64;
                        w
                    })
                    .collect();
                for (i, &first) in calls.iter().enumerate() {
                    for (j, &second) in calls.iter().enumerate() {
                        if !r.thorough && (i + 2 * j) % 3 != 0 && first.0 != second.0 {
                            continue;
                        }
                        for (m, (t, k, a, b)) in [(i, first), (j, second)] {
                            let got = once(&mut || typed(&rule, t, k, a, b));
                            let w = want[m];
                            o.evals += 1;
                            o.transitions += 1;
                            let near = (got.0 - w.0).abs() <= 1e-11 * (w.0.abs() + 1e-3);
                            if !near || got.1 != w.1 || got.2 != w.2 {
                                return o.fail(
                                    format!("{}: integrand {k} from {a:?} to {b:?} in parallel, passed as {} after {first:?}, gives {:?} from {} calls and is dropped {} times; passed as a plain closure {:?} from {} calls", s.key(), TYPES[t], got.0, got.1, got.2, w.0, w.1),
                                    format!("let rule = {};", s.ctor()),
                                );
                            }
                        }
                        o.traces += 1;
                    }
                }
                o.distinct(&s.key());
            }
        });
    }
}
