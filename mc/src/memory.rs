//! C23: memory that a history of operations takes is given back. The state that is explored is the number of bytes in
//! use: every operation and every ordered pair of operations is repeated until a leak of a few bytes would show, long
//! histories of different arguments are walked, and the largest amount in use within one operation is bounded.
use crate::history::{Ctx, Kind, alphabet, exec};
use crate::integ::fams_c07;
use crate::laws::{Any, Spec};
use crate::rules::*;
use gauss_quad::*;
use mc_core::run::{Obs, Run};
use serde_json::json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

pub struct Counting;
static SHARED: AtomicBool = AtomicBool::new(false);
/// a thread that has more in use gets no more memory: a rule that takes far too much ends the process early
static LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
fn refused(l: usize) -> bool {
    LIVE.try_with(|v| v.get()).unwrap_or(0).saturating_add(l as i64) > LIMIT.load(Relaxed)
}
static ALL: AtomicI64 = AtomicI64::new(0);
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
fn note(d: i64) {
    if SHARED.load(Relaxed) {
        ALL.fetch_add(d, Relaxed);
    }
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refused(l.size()) {
            return std::ptr::null_mut();
        }
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            note(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refused(l.size()) {
            return std::ptr::null_mut();
        }
        let p = unsafe { System.alloc_zeroed(l) };
        if !p.is_null() {
            note(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) };
        note(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refused(n) {
            return std::ptr::null_mut();
        }
        let q = unsafe { System.realloc(p, l, n) };
        if !q.is_null() {
            // both blocks may exist for a moment
            note(n as i64);
            note(-(l.size() as i64));
        }
        q
    }
}
/// bytes this thread has taken and not given back
fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// most bytes in use during f, beyond those in use before
fn peak<T>(f: impl FnOnce() -> T) -> (i64, T) {
    let before = live();
    PEAK.with(|p| p.set(before));
    let v = f();
    (PEAK.with(|p| p.get()) - before, v)
}
/// an operation may keep a little once, but not every time
const ONCE: i64 = 256;

fn ops() -> Vec<Kind> {
    let mut v: Vec<Kind> = alphabet().into_iter().filter(|k| !parallel(k)).collect();
    for f in fams_c07() {
        for n in [1, 2, 9, 33] {
            v.extend([Kind::New(f, n), Kind::Int(Spec::G(f, n), -1.0, 2.0)]);
        }
        for k in 0..3 {
            v.push(Kind::Panic(Spec::G(f, 4), k));
        }
        v.push(Kind::Nested(Spec::G(f, 2), Spec::G(Fam::Cheb1, 3)));
        v.push(Kind::NestPanic(Spec::G(Fam::Legendre, 2), Spec::G(f, 3), 4));
    }
    for k in NCS {
        v.extend([Kind::NewNc(k, 1), Kind::NewNc(k, 40), Kind::Int(Spec::N(k, 7), 0.0, 3.0), Kind::Panic(Spec::N(k, 3), 0), Kind::Panic(Spec::N(k, 3), 3), Kind::NestPanic(Spec::N(k, 2), Spec::N(k, 2), 3)]);
    }
    for f in [Fam::Legendre, Fam::Laguerre(1.5)] {
        for (n, k) in [(1, 0), (4, 0), (4, 4), (9, 1)] {
            v.push(Kind::Iter(f, n, k));
        }
    }
    v.extend(["1", "1e-300", "", "nan", "inf", "1e400", "-1.0", "0x10", "a rather long text that is not a number"].map(Kind::Parse));
    v
}
fn parallel(k: &Kind) -> bool {
    matches!(k, Kind::ParNew(..) | Kind::ParNc(..) | Kind::ParGauss(..) | Kind::ParPanic(..) | Kind::ParPanicGauss(..))
}

pub fn c23(r: &Run) {
    LIMIT.store(2 << 30, Relaxed);
    let ops = ops();
    let idx: Vec<usize> = (0..ops.len()).collect();
    let (reps, pair_reps) = r.pick((200, 12), (2000, 60));
    r.rule(format!("{} operations (building, integrating, cloning, iterating part of the way, integrands that panic at every call, nested integrals, parsing), each repeated {reps} times, and every ordered pair of them {pair_reps} times: the bytes in use afterwards are those in use before, apart from {ONCE} kept once", ops.len()));
    r.cases(&idx, |i| format!("repeated {:?}", ops[*i]), |&i, o: &mut Obs| {
        let mut ctx = Ctx::new();
        let mut repeat = |seq: &[usize], warm: usize, n: usize, o: &mut Obs| {
            for _ in 0..warm {
                for &s in seq {
                    exec(ops[s], &mut ctx);
                }
            }
            let before = live();
            for _ in 0..n {
                for &s in seq {
                    exec(ops[s], &mut ctx);
                }
            }
            o.evals += n as u64;
            o.transitions += (n * seq.len()) as u64;
            o.states += 1;
            live() - before
        };
        let grown = repeat(&[i], 3, reps, o);
        if grown > ONCE {
            return o.fail(format!("{:?} repeated {reps} times leaves {grown} bytes more in use", ops[i]), format!("{:?}", ops[i]));
        }
        for j in 0..ops.len() {
            let grown = repeat(&[i, j], 2, pair_reps, o);
            o.traces += 1;
            // what is kept once by each
            if grown > ONCE && repeat(&[i, j], 0, 4 * reps, o) > ONCE {
                return o.fail(format!("{:?} and {:?} in turn, {pair_reps} times, leave {grown} bytes more in use", ops[i], ops[j]), format!("{:?}, {:?}", ops[i], ops[j]));
            }
        }
        o.distinct(&format!("{:?}", ops[i]));
    });
    // everything a value owns goes with it
    let mut specs = vec![];
    for f in fams_c07() {
        for n in [1usize, 2, 7, 64, 130] {
            specs.push((f, n));
        }
    }
    r.rule(format!("{} rules: every way of taking one apart (clones, references, owned iterators consumed by every number of items from either end and then dropped, the boxed pairs), bytes in use as before", specs.len()));
    r.cases(&specs, |(f, n)| format!("taken apart {} n={n}", f.key()), |&(f, n), o: &mut Obs| {
        macro_rules! apart {
            ($t:ty) => {{
                let build = || f.build(n).any().downcast_ref::<$t>().unwrap().clone();
                drop(build());
                let start = live();
                let kept = build();
                for k in 0..=n.min(20) {
                    for way in 0..12 {
                        let base = live();
                        {
                            let r = kept.clone();
                            match way {
                                0 => drop(r.into_iter().nth(k)),
                                1 => {
                                    let mut it = r.into_iter();
                                    for _ in 0..k {
                                        it.next();
                                    }
                                    let c = it.clone();
                                    drop(it);
                                    drop(c);
                                }
                                2 => {
                                    let mut it = r.into_iter();
                                    for _ in 0..k {
                                        it.next_back();
                                    }
                                    drop(it.last());
                                }
                                3 => {
                                    let b = r.into_node_weight_pairs();
                                    drop(b.into_vec().into_iter().take(k).collect::<Vec<_>>());
                                }
                                4 => drop(r.nodes().skip(k).zip(r.weights().rev()).map(|(x, w)| x * w).sum::<f64>()),
                                5 => {
                                    let mut s = r.clone();
                                    s.clone_from(&kept);
                                    drop((r == s, format!("{s:?}")));
                                }
                                6 => {
                                    let it = r.into_iter();
                                    drop((it.as_slice().to_vec(), it.len(), format!("{it:?}")));
                                }
                                7 => {
                                    let mut it = r.into_iter();
                                    it.nth_back(k);
                                    assert_eq!(it.count(), n.saturating_sub(k + 1));
                                }
                                8 => drop(r.into_iter().skip(k).rev().map(|(x, w)| x + w).collect::<Vec<_>>()),
                                9 => drop((r.into_iter().rev().step_by(k + 1).last(), kept.iter().nth_back(k), kept.weights().count())),
                                10 => {
                                    let mut it = kept.iter();
                                    it.nth(k);
                                    let v: Vec<_> = it.clone().copied().collect();
                                    drop((it.count(), v, r));
                                }
                                _ => {
                                    let mut it = r.into_iter();
                                    let caught = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                        for i in 0..=k {
                                            it.next();
                                            if i == k {
                                                std::panic::resume_unwind(Box::new(0u8));
                                            }
                                        }
                                    }));
                                    drop(caught);
                                    drop(it);
                                }
                            }
                        }
                        o.evals += 1;
                        o.transitions += 1;
                        if live() != base {
                            return o.fail(format!("{} degree {n}: way {way} of taking it apart after {k} items leaves {} bytes more in use", f.key(), live() - base), f.ctor(n));
                        }
                    }
                }
                drop(kept);
                let left = live();
                o.distinct(&(f.key(), n));
                if left != start {
                    return o.fail(format!("{} degree {n}: {} bytes are not given back when it is dropped", f.key(), left - start), f.ctor(n));
                }
            }};
        }
        match f {
            Fam::Legendre => apart!(GaussLegendre),
            Fam::Hermite => apart!(GaussHermite),
            Fam::Laguerre(_) => apart!(GaussLaguerre),
            Fam::Jacobi(..) => apart!(GaussJacobi),
            Fam::Cheb1 => apart!(GaussChebyshevFirstKind),
            Fam::Cheb2 => apart!(GaussChebyshevSecondKind),
        }
    });
    // different arguments: nothing is kept for each of them
    const KEPT: i64 = 256 << 10;
    let long = r.pick(20_000usize, 200_000);
    let walks = ["Laguerre parameters", "Jacobi parameters", "Legendre degrees", "Chebyshev degrees", "Hermite degrees", "bounds", "texts", "cells"];
    r.rule(format!("walks through up to {long} different parameters, degrees, bounds and texts leave at most {} KiB more in use", KEPT >> 10));
    r.cases(&walks, |w| format!("different {w}"), |w, o: &mut Obs| {
        let five = GaussLegendre::new(nzu(5));
        let jac = GaussJacobi::new(nzu(3), par(0.5), par(1.5));
        let before = live();
        let mut count = 0;
        for i in 0..long {
            let x = i as f64 / 64.0;
            match *w {
                "Laguerre parameters" => drop(GaussLaguerre::new(nzu(2), par(x / 8.0))),
                "Jacobi parameters" => drop(GaussJacobi::new(nzu(2), par(x / 64.0), par(1.0 + x / 128.0))),
                "Legendre degrees" if i < 3000 => drop(GaussLegendre::new(nzu(i + 1))),
                "Chebyshev degrees" if i < 3000 => drop((GaussChebyshevFirstKind::new(nzu(i + 1)), GaussChebyshevSecondKind::new(nzu(i + 1)))),
                "Hermite degrees" if i < 100 => drop((GaussHermite::new(nzu(i + 1)), GaussLaguerre::new(nzu(i + 1), par(0.25)), GaussJacobi::new(nzu(i + 1), par(0.25), par(1.0)))),
                "bounds" => drop((five.integrate(x, x + 1.0, |x| x), jac.integrate(-x, x, |x| x), Simpson::new(nz32(3)).integrate(0.0, x, |x| x))),
                "texts" => drop((format!("{x}").parse::<FiniteAboveNegOneF64>(), format!("{x}?").parse::<FiniteAboveNegOneF64>())),
                "cells" if i < 3000 => drop((Midpoint::new(nz32(i as u32 + 1)).integrate(0.0, 1.0, |x| x), Trapezoid::new(nz32(i as u32 + 1)).integrate(0.0, 1.0, |x| x), Simpson::new(nz32(i as u32 + 1)).integrate(0.0, 1.0, |x| x))),
                _ => break,
            }
            count += 1;
            o.evals += 1;
            o.transitions += 1;
            if live() - before > KEPT {
                return o.fail(format!("{count} different {w} leave {} bytes more in use", live() - before), "");
            }
        }
        o.distinct(w);
        o.sample(json!({"walk": w, "length": count, "bytes_kept": live() - before}));
    });
    // how much is in use at most
    let mut big: Vec<Spec> = vec![];
    for n in [1usize, 10, 100, 101, 1000, 10_000, 100_000, 1_000_000] {
        for f in [Fam::Legendre, Fam::Cheb1, Fam::Cheb2] {
            big.push(Spec::G(f, n));
        }
        for k in NCS {
            big.push(Spec::N(k, n as u32));
        }
    }
    for n in [1usize, 10, 40, 100, 200] {
        for f in [Fam::Hermite, Fam::Laguerre(0.5), Fam::Jacobi(0.5, 1.5), Fam::Jacobi(0.0, 0.0)] {
            big.push(Spec::G(f, n));
        }
    }
    r.rule(format!("{} rules of up to a million nodes: building takes memory proportional to the degree (to its square with eigenvalues), the rule itself 16 bytes per node, integrating and cloning no more than proportionally to the degree", big.len()));
    r.cases(&big, |s| format!("size of {}", s.key()), |s, o: &mut Obs| {
        let (n, square) = match s {
            Spec::G(f, n) => (*n as i64, !matches!(f, Fam::Legendre | Fam::Cheb1 | Fam::Cheb2)),
            Spec::N(_, n) => (*n as i64, false),
        };
        let slack = 64 << 10;
        let start = live();
        let (built, rule) = peak(|| Any::new(s));
        let size = live() - start;
        let (used, v) = peak(|| rule.integrate(-1.0, 2.0, &mut |x| 1.0 / (1.0 + x * x)));
        let after = live() - start;
        let copied = match &rule {
            Any::G(_, _, r) => peak(|| r.clone_box()).0,
            Any::N(_, _, r) => peak(|| r.clone()).0,
        };
        o.evals += 3;
        o.transitions += 3;
        let limit = slack + 256 * n + if square { 256 * n * n } else { 0 };
        let nodes = if matches!(s, Spec::G(..)) { 16 * n } else { 0 };
        for (what, got, limit) in [
            ("building it takes", built, limit),
            ("the rule takes", size, 1024 + 2 * nodes),
            ("after integrating it takes", after, 1024 + 2 * nodes + ONCE),
            ("integrating takes", used, slack + 256 * n),
            ("cloning takes", copied, 1024 + 4 * nodes),
        ] {
            if got > limit {
                return o.fail(format!("{}: {what} {got} bytes (limit {limit})", s.key()), s.ctor());
            }
        }
        o.distinct(&s.key());
        o.sample(json!({"rule": s.key(), "building": built, "rule_bytes": size, "integrating": used, "cloning": copied, "value": v}));
    });
    #[cfg(feature = "full")]
    shared(r);
}

/// operations that use the threads of the pool, which may free what another thread took
#[cfg(feature = "full")]
fn shared(r: &Run) {
    let mut ops: Vec<Kind> = alphabet().into_iter().filter(parallel).collect();
    for f in fams_c07() {
        ops.extend([Kind::ParGauss(f, 9), Kind::ParPanicGauss(f, 5), Kind::ParPanicGauss(f, 40)]);
    }
    for f in [Fam::Legendre, Fam::Cheb1, Fam::Cheb2] {
        ops.extend([Kind::ParNew(f, 1), Kind::ParNew(f, 300)]);
    }
    for k in NCS {
        ops.extend([Kind::ParNc(k, 64), Kind::ParPanic(k, 9)]);
    }
    // different arguments on the pool
    let long = r.pick(3000usize, 20_000);
    let walks = ["Legendre", "first kind", "second kind", "midpoint", "trapezoid", "Simpson"];
    r.rule(format!("walks of the parallel operations through {long} different degrees on the thread pool leave at most 1 MiB more in use by all threads"));
    r.cases_n(1, &walks, |w| format!("different degrees on the pool, {w}"), |w, o: &mut Obs| {
        let step = |i: usize| {
            let c = nz32(i as u32);
            match *w {
                "Legendre" => GaussLegendre::par_new(nzu(i)).par_integrate(0.0, 1.0, |x| x),
                "first kind" => GaussChebyshevFirstKind::par_new(nzu(i)).par_integrate(0.0, 1.0, |x| x),
                "second kind" => GaussChebyshevSecondKind::par_new(nzu(i)).par_integrate(0.0, 1.0, |x| x),
                "midpoint" => Midpoint::new(c).par_integrate(0.0, 1.0, |x| x),
                "trapezoid" => Trapezoid::new(c).par_integrate(0.0, 1.0, |x| x),
                _ => Simpson::new(c).par_integrate(0.0, 1.0, |x| x),
            }
        };
        for i in 1..100 {
            step(i);
        }
        ALL.store(0, Relaxed);
        SHARED.store(true, Relaxed);
        let mut lowest = i64::MAX;
        for i in 1..=long {
            step(i);
            o.evals += 1;
            o.transitions += 1;
            if i > long - 50 {
                lowest = lowest.min(ALL.load(Relaxed));
            }
        }
        SHARED.store(false, Relaxed);
        o.distinct(w);
        o.states += 1;
        if lowest > 1 << 20 {
            o.fail(format!("{long} different degrees leave {lowest} bytes more in use"), w.to_string());
        }
    });
    let reps = r.pick(4000, 40_000);
    // queues and lists of the thread pool are grown and cut back at its own pace
    let slack: i64 = 32 << 10;
    r.rule(format!("{} operations on the thread pool, each repeated {reps} times: the bytes in use by all threads grow by no more than {} KiB", ops.len(), slack >> 10));
    r.cases_n(1, &ops, |k| format!("repeated on the pool {k:?}"), |&k, o: &mut Obs| {
        let mut ctx = Ctx::new();
        for _ in 0..200 {
            exec(k, &mut ctx);
        }
        ALL.store(0, Relaxed);
        SHARED.store(true, Relaxed);
        let mut lowest = i64::MAX;
        for i in 0..reps {
            exec(k, &mut ctx);
            o.evals += 1;
            o.transitions += 1;
            // the least amount seen late is what is really kept
            if i >= reps - 50 {
                lowest = lowest.min(ALL.load(Relaxed));
            }
        }
        SHARED.store(false, Relaxed);
        o.distinct(&format!("{k:?}"));
        o.states += 1;
        if lowest > slack {
            o.fail(format!("{k:?} repeated {reps} times leaves {lowest} bytes more in use"), format!("{k:?}"));
        }
    });
}
