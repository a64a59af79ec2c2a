//! C15: no operation can tell what happened before it or happens next to it.
//! Every operation's outcome is compared with the one it has in a fresh process.
use crate::integ::fams_c07;
use crate::laws::{Any, Spec};
use crate::rules::*;
use gauss_quad::*;
use mc_core::run::{ENGINE, Obs, Run, hash_of};
use serde_json::json;
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Condvar, Mutex};

thread_local! {
    /// called at every integrand call and between operations: (operation depth is the caller's business)
    static POINT: RefCell<Option<Box<dyn FnMut(usize)>>> = const { RefCell::new(None) };
    static CALLS: RefCell<usize> = const { RefCell::new(0) };
}
/// a scheduling point: the current integrand call
fn point() {
    let k = CALLS.with(|c| {
        *c.borrow_mut() += 1;
        *c.borrow() - 1
    });
    let f = POINT.with(|p| p.borrow_mut().take());
    if let Some(mut f) = f {
        f(k);
        POINT.with(|p| *p.borrow_mut() = Some(f));
    }
}
fn g(x: f64) -> f64 {
    0.3 * x * x * x - x + 1.0 / (3.0 + x * x)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// build and look at all pairs
    New(Fam, usize),
    NewNc(Nc, u32),
    /// build and integrate
    Int(Spec, f64, f64),
    /// integrate with a rule that lives as long as the history
    Live(usize, f64, f64),
    /// the same, the integrand panics at call k
    LivePanic(usize, usize),
    Panic(Spec, usize),
    /// iterate the first k items from both ends, drop the rest
    Iter(Fam, usize, usize),
    /// clone, use the clone, drop it
    LiveClone(usize),
    /// change_degree there and back on a copy and on the live rule
    Change(u32, u32),
    Nested(Spec, Spec),
    Parse(&'static str),
    Pow(f64, f64),
    ParNew(Fam, usize),
    /// sums that are exact in any order
    ParNc(Nc, u32),
    ParGauss(Fam, usize),
    ParPanic(Nc, u32),
    ParPanicGauss(Fam, usize),
    /// the innermost integrand panics at call k
    NestPanic(Spec, Spec, usize),
}
use Kind::*;

/// the rules a history shares
pub struct Ctx {
    live: Vec<Any>,
    mid: Midpoint,
    trap: Trapezoid,
    simp: Simpson,
}
pub const LIVE: [Spec; 6] = [
    Spec::G(Fam::Legendre, 3),
    Spec::G(Fam::Hermite, 4),
    Spec::G(Fam::Jacobi(0.5, 1.5), 2),
    Spec::G(Fam::Laguerre(1.5), 2),
    Spec::N(Nc::Simp, 2),
    Spec::N(Nc::Trap, 3),
];
impl Ctx {
    pub fn new() -> Ctx {
        Ctx { live: LIVE.iter().map(Any::new).collect(), mid: Midpoint::new(nz32(4)), trap: Trapezoid::new(nz32(4)), simp: Simpson::new(nz32(4)) }
    }
}

pub fn alphabet() -> Vec<Kind> {
    let mut v = vec![];
    for f in fams_c07() {
        v.push(New(f, 3));
    }
    v.extend([
        New(Fam::Laguerre(2.5), 3),
        New(Fam::Laguerre(2.5), 2),
        New(Fam::Jacobi(1.5, 0.5), 3),
        New(Fam::Jacobi(0.5, 1.5), 2),
        New(Fam::Legendre, 2),
        New(Fam::Legendre, 101),
        New(Fam::Legendre, 102),
        New(Fam::Cheb1, 1),
        New(Fam::Cheb2, 8),
        New(Fam::Hermite, 1),
        New(Fam::Hermite, 4),
        NewNc(Nc::Mid, 3),
        NewNc(Nc::Simp, 5),
        Int(Spec::G(Fam::Legendre, 3), -1.0, 2.0),
        Int(Spec::G(Fam::Legendre, 3), 0.0, 1.0),
        Int(Spec::G(Fam::Laguerre(0.0), 3), 0.0, 0.0),
        Int(Spec::G(Fam::Cheb2, 2), -1.0, 2.0),
        Int(Spec::N(Nc::Mid, 3), -1.0, 2.0),
        Int(Spec::N(Nc::Simp, 1), -1.0, 2.0),
        Int(Spec::N(Nc::Trap, 2), 5.0, 6.0),
        Live(0, -1.0, 2.0),
        Live(0, 3.0, 1.0),
        Live(1, 0.0, 0.0),
        Live(2, -1.0, 2.0),
        Live(3, 0.0, 0.0),
        Live(4, -1.0, 2.0),
        Live(5, -1.0, 2.0),
        LivePanic(0, 1),
        LivePanic(1, 0),
        LivePanic(4, 3),
        Panic(Spec::G(Fam::Cheb1, 3), 2),
        Iter(Fam::Legendre, 5, 2),
        Iter(Fam::Laguerre(1.5), 3, 1),
        LiveClone(0),
        LiveClone(3),
        Change(7, 4),
        Change(1, 4),
        Nested(Spec::G(Fam::Legendre, 2), Spec::G(Fam::Legendre, 2)),
        Nested(Spec::N(Nc::Trap, 1), Spec::G(Fam::Hermite, 2)),
        Parse("-0.25"),
        Parse("-1"),
        Pow(0.5, 3.0),
    ]);
    if cfg!(feature = "full") {
        v.extend([
            ParNew(Fam::Legendre, 3),
            ParNew(Fam::Legendre, 150),
            ParNew(Fam::Cheb1, 5),
            ParNew(Fam::Cheb2, 3),
            ParNc(Nc::Mid, 8),
            ParNc(Nc::Simp, 4),
            ParNc(Nc::Trap, 8),
            ParGauss(Fam::Legendre, 2),
            ParGauss(Fam::Jacobi(0.5, 1.5), 2),
            ParPanic(Nc::Simp, 3),
        ]);
    }
    v
}

/// groups of operations whose arguments are easily taken for one another
fn clusters() -> Vec<Vec<Kind>> {
    let mut all = vec![];
    for b in [-0.999f64, -0.5, -0.25, 0.0, 0.5, 1.5, 2.0, 7.0, 18.0, 30.0, 150.0] {
        let s = b.abs().max(0.5);
        let near = [b, b.next_up(), b.next_down(), b + 1e-15 * s, b + 1e-12 * s, b + 1e-9 * s, b + 1e-7 * s, b + 3e-8 * s, b + 1e-5 * s, b + 1e-3 * s, b + 0.01, b + 0.25, b + 0.5, b + 1.0];
        let mut c = vec![];
        for x in near {
            c.extend([New(Fam::Laguerre(x), 3), New(Fam::Jacobi(x, 0.3), 2), New(Fam::Jacobi(0.3, x), 2)]);
        }
        c.extend([New(Fam::Jacobi(b, b), 2), New(Fam::Jacobi(b, b.next_up()), 2), New(Fam::Jacobi(b.next_up(), b), 2), New(Fam::Jacobi(b + 0.25, 0.05), 2), New(Fam::Laguerre(b), 4), New(Fam::Jacobi(b, 0.3), 3)]);
        if b == 0.0 {
            c.extend([New(Fam::Laguerre(-0.0), 3), New(Fam::Laguerre(1e-300), 3), New(Fam::Jacobi(-0.0, 0.0), 2), New(Fam::Jacobi(0.0, 0.0), 2)]);
        }
        all.push(c);
    }
    for f in [Fam::Legendre, Fam::Cheb1, Fam::Cheb2] {
        let mut c: Vec<Kind> = [3usize, 4, 67, 99, 100, 101, 102, 131, 259, 515, 1027, 4099, 65_539].map(|n| New(f, n)).into();
        if cfg!(feature = "full") {
            c.extend([3usize, 101, 259, 1027].map(|n| ParNew(f, n)));
        }
        all.push(c);
    }
    all.push(MIXED.iter().filter(|f| !matches!(f, Fam::Legendre | Fam::Cheb1 | Fam::Cheb2)).flat_map(|&f| [1usize, 2, 3, 4, 5, 19, 35, 67].map(|n| New(f, n))).collect());
    // the same degree and parameters for different rules
    all.push(MIXED.iter().flat_map(|&f| [New(f, 5), New(f, 6)]).chain([0.0, 0.5, -0.5].into_iter().flat_map(|x| [New(Fam::Jacobi(x, x), 5), New(Fam::Laguerre(x), 5), New(Fam::Jacobi(x, 0.0), 5), New(Fam::Jacobi(0.0, x), 5)])).collect());
    // a panic leaves nothing behind: for every rule, panics at every call, next to ordinary, nested and parallel use
    for s in MIXED.iter().map(|&f| Spec::G(f, 4)).chain(NCS.map(|k| Spec::N(k, 3))) {
        let mut c = vec![Int(s, -1.0, 2.0), Int(s, 0.0, 1.0), Nested(s, s), Nested(Spec::G(Fam::Legendre, 2), s), Nested(s, Spec::N(Nc::Simp, 1))];
        c.extend((0..4).map(|k| Panic(s, k)));
        c.extend([0, 1, 4, 5, 9, 15].map(|k| NestPanic(s, s, k)));
        c.extend([NestPanic(Spec::G(Fam::Legendre, 2), s, 5), NestPanic(s, Spec::N(Nc::Simp, 1), 3)]);
        if cfg!(feature = "full") {
            match s {
                Spec::G(f, _) => c.extend([ParGauss(f, 2), ParPanicGauss(f, 4), ParPanicGauss(f, 2)]),
                Spec::N(k, _) => c.extend([ParNc(k, 8), ParPanic(k, 3), ParPanic(k, 8)]),
            }
        }
        all.push(c);
    }
    // memory of a dropped rule is used again by the next one of the same size
    all.push(MIXED.iter().map(|&f| Int(Spec::G(f, 6), -1.0, 2.0)).chain([0.25, 0.5, 1.5, 2.5, 7.0].into_iter().flat_map(|x| [Int(Spec::G(Fam::Jacobi(x, x), 6), -1.0, 2.0), Int(Spec::G(Fam::Laguerre(x), 6), 0.0, 0.0), Int(Spec::G(Fam::Jacobi(x, 0.3), 6), -1.0, 2.0), Int(Spec::G(Fam::Jacobi(0.3, x), 6), -1.0, 2.0)])).collect());
    for s in [Spec::G(Fam::Legendre, 3), Spec::G(Fam::Cheb2, 3), Spec::G(Fam::Jacobi(0.5, 1.5), 3), Spec::N(Nc::Mid, 3), Spec::N(Nc::Trap, 3), Spec::N(Nc::Simp, 3)] {
        let mut c: Vec<Kind> = [(0.0, 1.0), (1.0, 0.0), (-0.0, 1.0), (0.0, 1.0 + 2e-16), (0.0, 1.0 + 1e-12), (0.0, 1.0 + 1e-7), (1e-9, 1.0), (1e-300, 1.0), (-1.0, 0.0), (0.0, 2.0), (0.5, 1.5), (1.0, 1.0), (f64::NAN, 1.0), (0.0, f64::INFINITY)].map(|(a, b)| Int(s, a, b)).into();
        c.push(Int(
            match s {
                Spec::G(f, n) => Spec::G(f, n + 1),
                Spec::N(k, n) => Spec::N(k, n + 1),
            },
            0.0,
            1.0,
        ));
        all.push(c);
    }
    all.push([(0.5, 3.0), (0.5, 3.0000000000000004), (0.5, 3.0000001), (0.50000001, 3.0), (3.0, 0.5), (-0.5, 3.0), (-0.5, 2.0), (2.0, 10.0), (2.0, 10.0000001), (2.0, -10.0), (2.0, 0.5), (0.0, 0.0), (0.0, -1.0)].map(|(x, y)| Pow(x, y)).into_iter().chain(["-0.25", "-0.2500000000000001", "-0.25e0", "-.25", "-1", "1", "0.25", "-0.25x", ""].map(Parse)).collect());
    all
}

/// Long runs of different operations of one kind. Walked up and down again, the number of different operations between
/// two visits of the same one takes every value up to the length, so a store of any capacity below it overflows in between.
fn marches(len: usize) -> Vec<Vec<Kind>> {
    let at = |k: usize| -0.96 + 0.037 * k as f64;
    let up = |f: &dyn Fn(usize) -> Kind| (0..len).map(f).collect::<Vec<_>>();
    let small = len / 4;
    let mut v = vec![
        up(&|k| New(Fam::Laguerre(at(k)), 2)),
        up(&|k| New(Fam::Jacobi(at(k), 0.3), 2)),
        up(&|k| New(Fam::Jacobi(at(k % 23), at(k / 23)), 2)),
        up(&|k| New(Fam::Legendre, k + 1)),
        up(&|k| New(Fam::Cheb1, k + 1)),
        up(&|k| New(Fam::Cheb2, k + 1)),
        up(&|k| NewNc(NCS[k % 3], k as u32 / 3 + 1)),
        up(&|k| Int(Spec::G(Fam::Legendre, 3), 0.0, 0.25 * k as f64)),
        up(&|k| Int(Spec::G(Fam::Jacobi(0.5, 1.5), 2), -1.0, 0.25 * k as f64)),
        up(&|k| Int(Spec::G(Fam::Laguerre(at(k)), 3), 0.0, 0.0)),
        up(&|k| Int(Spec::G(Fam::Jacobi(at(k), at(k / 7)), 4), -1.0, 1.0)),
        up(&|k| Int(Spec::G(if k % 2 == 0 { Fam::Cheb1 } else { Fam::Cheb2 }, k / 2 + 1), -1.0, 2.0)),
        up(&|k| Int(Spec::N(NCS[k % 3], 3), 0.25 * k as f64, 7.0)),
        up(&|k| Live(k % LIVE.len(), 0.1 * k as f64, 3.0)),
        up(&|k| Pow(0.5 + 0.01 * k as f64, 2.5)),
        (0..small).map(|k| New(Fam::Hermite, k % 40 + 1)).collect(),
        (0..small).map(|k| Int(Spec::G(MIXED[k % MIXED.len()], k / MIXED.len() % 30 + 1), -1.0, 2.0)).collect(),
        (0..small).map(|k| Nested(Spec::G(Fam::Laguerre(at(k)), 2), Spec::G(Fam::Jacobi(at(k), 0.5), 2))).collect(),
    ];
    if cfg!(feature = "full") {
        v.push((0..small).map(|k| ParNew([Fam::Legendre, Fam::Cheb1, Fam::Cheb2][k % 3], k + 1)).collect());
        v.push((0..small).map(|k| ParGauss(Fam::Jacobi(at(k), 0.5), 2)).collect());
    }
    v
}
const MARCH: usize = 1500;

fn panicking(call: impl FnOnce(&mut dyn FnMut(f64) -> f64) -> f64, at: usize) -> Vec<u64> {
    let mut n = 0;
    let r = catch_unwind(AssertUnwindSafe(|| {
        call(&mut |x| {
            point();
            n += 1;
            if n > at {
                panic!("stop here");
            }
            g(x)
        })
    }));
    vec![n as u64, r.is_err() as u64, r.unwrap_or(0.0).to_bits()]
}
fn bits(p: &[(f64, f64)]) -> Vec<u64> {
    p.iter().flat_map(|p| [p.0.to_bits(), p.1.to_bits()]).collect()
}
/// long outputs are compared by their hash
fn long(mut v: Vec<u64>, n: usize) -> Vec<u64> {
    if v.len() > 600 {
        let h = mc_core::run::hash_of(&v);
        v.truncate(8);
        v.push(h);
    }
    v.push(n as u64);
    v
}
/// what the operation shows its caller
pub fn exec(k: Kind, c: &mut Ctx) -> Vec<u64> {
    let mut gi = |x: f64| {
        point();
        g(x)
    };
    match k {
        New(f, n) => {
            let r = f.build(n);
            long(bits(r.pairs()), r.degree())
        }
        NewNc(k, n) => {
            let r = k.build(n);
            let mut v: Vec<u64> = r.nodes().iter().map(|x| x.to_bits()).collect();
            v.push(r.degree() as u64);
            v.push(r.integrate(-1.0, 3.0, &mut g).to_bits());
            v
        }
        Int(s, a, b) => vec![Any::new(&s).integrate(a, b, &mut gi).to_bits()],
        Live(i, a, b) => vec![c.live[i].integrate(a, b, &mut gi).to_bits()],
        LivePanic(i, k) => panicking(|f| c.live[i].integrate(-1.0, 2.0, f), k),
        Panic(s, k) => panicking(|f| Any::new(&s).integrate(-1.0, 2.0, f), k),
        Iter(f, n, k) => {
            let r = f.build(n);
            let mut v = vec![];
            macro_rules! walk {
                ($t:ty) => {{
                    let r = r.any().downcast_ref::<$t>().unwrap();
                    let mut it = r.iter();
                    v.extend(it.by_ref().take(k).flat_map(|p| [p.0.to_bits(), p.1.to_bits()]));
                    v.extend(it.next_back().map(|p| p.0.to_bits()));
                    drop(it);
                    let mut it = r.clone().into_iter();
                    v.extend(it.nth(k).map(|p| p.1.to_bits()));
                    v.push(it.len() as u64);
                    v.extend(r.nodes().rev().take(k).map(|x| x.to_bits()));
                    v.extend(r.weights().skip(k).map(|x| x.to_bits()));
                }};
            }
            match f {
                Fam::Legendre => walk!(GaussLegendre),
                _ => walk!(GaussLaguerre),
            }
            v
        }
        LiveClone(i) => {
            let Any::G(_, _, r) = &c.live[i] else { unreachable!() };
            let d = r.clone_box();
            let e = d.clone_box();
            let mut v = vec![r.eq_box(&*d) as Option<bool> == Some(true), e.eq_box(&**r) == Some(true)].into_iter().map(u64::from).collect::<Vec<_>>();
            drop(d);
            v.push(e.integrate(-1.0, 1.0, &mut gi).to_bits());
            v.extend(bits(e.pairs()));
            v
        }
        Change(a, b) => {
            let mut v = vec![];
            let mut m2 = c.mid.clone();
            m2.change_degree(nz32(a));
            v.extend([c.mid.degree().get() as u64, m2.degree().get() as u64, m2.integrate(0.0, 3.0, g).to_bits(), c.mid.integrate(0.0, 3.0, g).to_bits(), (m2 == c.mid) as u64]);
            macro_rules! there_and_back {
                ($($r:expr),*) => {$(
                    $r.change_degree(nz32(a));
                    v.extend([$r.degree().get() as u64, $r.integrate(-1.0, 2.0, g).to_bits(), $r.iter().len() as u64]);
                    $r.change_degree(nz32(b));
                    v.extend([$r.degree().get() as u64, $r.integrate(-1.0, 2.0, g).to_bits(), $r.iter().len() as u64]);
                )*};
            }
            there_and_back!(c.mid, c.trap, c.simp);
            v
        }
        Nested(s, t) => {
            let (s, t) = (Any::new(&s), Any::new(&t));
            let v = s.integrate(0.0, 1.0, &mut |x| t.integrate(0.0, x + 1.0, &mut |y| { point(); g(x * y) + x }));
            vec![v.to_bits()]
        }
        Parse(s) => match s.parse::<FiniteAboveNegOneF64>() {
            Ok(p) => vec![p.get().to_bits(), hash_of(&p.to_string())],
            Err(e) => vec![hash_of(&format!("{e:?} {e}"))],
        },
        Pow(a, b) => vec![par(a).checked_pow(b).map_or(0, |p| p.get().to_bits()), par(a).checked_sub(9.0).is_some() as u64, FiniteAboveNegOneF64::default().get().to_bits()],
        #[cfg(feature = "full")]
        ParNew(f, n) => bits(f.par_build(n).unwrap().pairs()),
        #[cfg(feature = "full")]
        ParNc(k, n) => vec![k.build(n).par_integrate(0.0, n as f64, &|x| 6.0 * x + 3.0).to_bits()],
        #[cfg(feature = "full")]
        ParGauss(f, n) => vec![f.build(n).par_integrate(-1.0, 2.0, &|x| g(x)).to_bits()],
        #[cfg(feature = "full")]
        ParPanic(k, n) => {
            let r = catch_unwind(AssertUnwindSafe(|| k.build(n).par_integrate(0.0, 1.0, &|x| if x > 0.7 { panic!("stop") } else { x })));
            vec![r.is_err() as u64]
        }
        #[cfg(feature = "full")]
        ParPanicGauss(f, n) => {
            let r = f.build(n);
            let x = r.pairs()[n / 2].0;
            let r = catch_unwind(AssertUnwindSafe(|| r.par_integrate(-1.0, 1.0, &|y| if (y - x).abs() < 1e-9 { panic!("stop") } else { y })));
            vec![r.is_err() as u64]
        }
        NestPanic(s, t, k) => {
            let (s, t) = (Any::new(&s), Any::new(&t));
            panicking(|f| s.integrate(0.0, 1.0, &mut |x| t.integrate(0.0, x + 1.0, &mut |y| f(x * y) + x)), k)
        }
        #[cfg(not(feature = "full"))]
        _ => unreachable!(),
    }
}

/// child process: run the operations with these indices in order, print what each showed
pub fn child(list: &str) {
    let mut ops = alphabet();
    ops.extend(clusters().into_iter().flatten());
    ops.extend(marches(MARCH).into_iter().flatten());
    let mut c = Ctx::new();
    for i in list.split(',') {
        let v = exec(ops[i.parse::<usize>().unwrap()], &mut c);
        println!("{}", v.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" "));
    }
}
fn spawn(list: &str) -> Vec<Vec<u64>> {
    let out = std::process::Command::new(std::env::current_exe().unwrap()).env("MC_HISTORY", list).output().expect("cannot start a child process");
    if !out.status.success() {
        panic!("operation sequence {list} ended the process: {}", out.status);
    }
    String::from_utf8(out.stdout).unwrap().lines().map(|l| l.split_whitespace().map(|x| u64::from_str_radix(x, 16).unwrap()).collect()).collect()
}
fn show(v: &[u64]) -> String {
    let s: Vec<String> = v.iter().take(5).map(|&b| if b < 4096 { format!("{b}") } else { format!("{:?}", f64::from_bits(b)) }).collect();
    format!("[{}{}]", s.join(", "), if v.len() > 5 { ", ..." } else { "" })
}

/// Two or three threads that hand a token to each other at scheduling points.
struct Turns {
    at: Mutex<(usize, Vec<usize>, Vec<bool>)>, // position in the schedule, schedule, finished
    cv: Condvar,
}
impl Turns {
    /// wait until it is thread `me`'s turn, consuming one step of the schedule
    fn step(&self, me: usize) {
        let mut g = self.at.lock().unwrap();
        loop {
            // skip threads that have already finished
            while g.0 < g.1.len() && g.2[g.1[g.0]] {
                g.0 += 1;
            }
            if g.0 >= g.1.len() || g.1[g.0] == me {
                break;
            }
            g = self.cv.wait(g).unwrap();
        }
        g.0 += 1;
        self.cv.notify_all();
    }
    fn done(&self, me: usize) {
        self.at.lock().unwrap().2[me] = true;
        self.cv.notify_all();
    }
}

/// all interleavings of `n` sequences of the given lengths
fn interleavings(len: &[usize], f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
    fn go(left: &mut Vec<usize>, s: &mut Vec<usize>, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
        if left.iter().all(|l| *l == 0) {
            return f(s);
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                s.push(i);
                let c = go(left, s, f);
                s.pop();
                left[i] += 1;
                if !c {
                    return false;
                }
            }
        }
        true
    }
    go(&mut len.to_vec(), &mut vec![], f)
}

pub fn c15(r: &Run) {
    let ops = alphabet();
    let n = ops.len();
    let base: Vec<Vec<u64>> = {
        let out: Mutex<Vec<Vec<u64>>> = Mutex::new(vec![vec![]; n]);
        let next = std::sync::atomic::AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| {
                    loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if i >= n {
                            return;
                        }
                        let v = spawn(&i.to_string());
                        out.lock().unwrap()[i] = v.into_iter().next().unwrap_or_default();
                    }
                });
            }
        });
        out.into_inner().unwrap()
    };
    if base.iter().any(|b| b.is_empty()) {
        panic!("{ENGINE} an operation shows nothing");
    }
    let idx: Vec<usize> = (0..n).collect();
    let check = |i: usize, v: &[u64], hist: &str, o: &mut Obs| -> bool {
        o.evals += 1;
        o.transitions += 1;
        if v != base[i] {
            o.fail(format!("{:?} {hist} shows {}, in a fresh process {}", ops[i], show(v), show(&base[i])), format!("{:?} {hist}", ops[i]));
            return false;
        }
        true
    };
    // 1. every pair of operations in a fresh process
    r.rule(format!("{n} operations (constructors with equal degrees and different parameters, integrations, panicking and nested integrands, partial iteration, clones, degree changes, parameter operations, parallel calls); every ordered pair in a fresh process of its own"));
    r.cases(&idx, |i| format!("fresh process, first {:?}", ops[*i]), |&i, o| {
        for j in 0..n {
            let v = spawn(&format!("{i},{j}"));
            o.states += 1;
            o.traces += 1;
            o.distinct(&(i, j));
            if v.len() != 2 {
                return o.fail(format!("{:?} then {:?} ended early", ops[i], ops[j]), "");
            }
            if !check(i, &v[0], "first in a fresh process", o) || !check(j, &v[1], &format!("after {:?}", ops[i]), o) {
                return;
            }
        }
    });
    // every ordered pair of operations that are easily taken for one another, first-come and last-come
    let groups = clusters();
    let mut starts = vec![];
    let mut first = n;
    for (k, c) in groups.iter().enumerate() {
        starts.extend((0..c.len()).map(|i| (k, i, first)));
        first += c.len();
    }
    let fresh: Vec<std::sync::OnceLock<Vec<u64>>> = (n..first).map(|_| Default::default()).collect();
    let alone = |at: usize| fresh[at - n].get_or_init(|| spawn(&at.to_string()).into_iter().next().unwrap_or_default());
    r.rule(format!("{} groups of up to {} operations with confusable arguments (parameters one rounding, one single-precision rounding and small or integer distances apart, degrees equal modulo powers of two, bounds nearly equal or swapped, the same numbers for different rules): in a fresh process per operation it is alternated with every other one of its group", groups.len(), groups.iter().map(|g| g.len()).max().unwrap()));
    r.cases(&starts, |(k, i, _)| format!("group {k}, first {:?} (number {i})", groups[*k][*i]), |&(k, i, first), o| {
        let g = &groups[k];
        let list: Vec<usize> = (0..g.len()).filter(|j| *j != i).flat_map(|j| [i, j]).collect();
        let v = spawn(&list.iter().map(|j| (first + j).to_string()).collect::<Vec<_>>().join(","));
        o.traces += 1;
        if v.len() != list.len() {
            return o.fail(format!("the process that starts with {:?} ended early", g[i]), "");
        }
        for (at, (&j, v)) in list.iter().zip(&v).enumerate() {
            o.evals += 1;
            o.states += 1;
            o.transitions += 1;
            o.distinct(&(k, i, j));
            let want = alone(first + j);
            if v != want {
                let before = if at > 0 { format!("{:?}", g[list[at - 1]]) } else { "nothing".into() };
                return o.fail(format!("{:?} after {before} (step {at} of a process that started with {:?}) shows {}, in a fresh process {}", g[j], g[i], show(v), show(want)), format!("{before}; {:?}", g[j]));
            }
        }
    });
    // up and down and up again through many different operations
    let walks = marches(MARCH);
    let len = r.pick(300, MARCH);
    r.rule(format!("{} walks up, down and up again through up to {len} different operations each, in a fresh process: the number of different operations between two visits takes every value up to that length", walks.len()));
    let mut at = first;
    let starts: Vec<(usize, usize)> = walks.iter().enumerate().map(|(k, w)| { let s = (k, at); at += w.len(); s }).collect();
    r.cases(&starts, |(k, _)| format!("walk {k}, through {:?} ...", walks[*k][0]), |&(k, first), o| {
        let w = &walks[k][..walks[k].len().min(len)];
        let list: Vec<usize> = (0..w.len()).chain((0..w.len()).rev()).chain(0..w.len()).collect();
        let v = spawn(&list.iter().map(|j| (first + j).to_string()).collect::<Vec<_>>().join(","));
        o.traces += 1;
        if v.len() != list.len() {
            return o.fail(format!("the process that walks through {:?} ... ended early", w[0]), "");
        }
        let mut fresh: Vec<Option<Vec<u64>>> = vec![None; w.len()];
        for (step, (&j, v)) in list.iter().zip(&v).enumerate() {
            o.evals += 1;
            o.states += 1;
            o.transitions += 1;
            o.distinct(&(k, j));
            let want = fresh[j].get_or_insert_with(|| spawn(&(first + j).to_string()).into_iter().next().unwrap_or_default());
            if v != want {
                return o.fail(format!("{:?} at step {step} of a walk up, down and up through {} operations {:?} ... {:?} shows {}, in a fresh process {}", w[j], w.len(), w[0], w[w.len() - 1], show(v), show(want)), format!("{:?}", w[j]));
            }
        }
    });
    // 2. every sequence to a depth, all in this process
    let depth = r.pick(3, 4);
    r.rule(format!("every sequence of {depth} operations over shared rules, one process"));
    let mut heads = vec![];
    for i in 0..n {
        for j in 0..n {
            heads.push((i, j));
        }
    }
    r.cases(&heads, |(i, j)| format!("sequences starting with {:?}, {:?}", ops[*i], ops[*j]), |&(i, j), o| {
        crate::integ::sequences(depth - 2, n, |tail| {
            let mut c = Ctx::new();
            let mut hist = vec![];
            for &k in [i, j].iter().chain(tail) {
                let v = exec(ops[k], &mut c);
                if !check(k, &v, &format!("after {hist:?}"), o) {
                    return false;
                }
                hist.push(ops[k]);
            }
            o.states += 1;
            o.traces += 1;
            o.distinct(&tail);
            true
        });
        if (i, j) == (1, 2) {
            o.sample(json!({"history": format!("{:?} then {:?} then each of {n}", ops[i], ops[j])}));
        }
    });
    // 3. pumping: many repetitions of one operation, then every operation
    let reps = r.pick(70_000, 400_000);
    r.rule(format!("each operation repeated {reps} times (less for slow ones), then every operation once"));
    r.cases(&idx, |i| format!("pump {:?}", ops[*i]), |&i, o| {
        let mut c = Ctx::new();
        let t = std::time::Instant::now();
        for k in 0..reps {
            let v = exec(ops[i], &mut c);
            if !check(i, &v, &format!("at repetition {k}"), o) {
                return;
            }
            if k >= 300 && t.elapsed().as_secs() > if r.thorough { 30 } else { 4 } {
                o.count("pump_time_cap_hit", 1);
                break;
            }
        }
        for j in 0..n {
            let v = exec(ops[j], &mut c);
            if !check(j, &v, &format!("after {reps} times {:?}", ops[i]), o) {
                return;
            }
        }
        o.states += 1;
        o.traces += 1;
        o.distinct(&i);
    });
    // 4. every operation inside every integrand call of every integrating operation, on this and on another thread
    let integrating: Vec<usize> = idx.iter().copied().filter(|&i| matches!(ops[i], Int(..) | Live(..) | LivePanic(..) | Panic(..) | Nested(..) | LiveClone(..))).collect();
    r.rule(format!("every operation run inside each integrand call of {} integrating operations, on the same thread and on another thread", integrating.len()));
    let mut items = vec![];
    for &i in &integrating {
        for j in 0..n {
            items.push((i, j));
        }
    }
    r.cases(&items, |(i, j)| format!("{:?} inside {:?}", ops[*j], ops[*i]), |&(i, j), o| {
        for other in [false, true] {
            for at in 0..6usize {
                let got: Arc<Mutex<Option<Vec<u64>>>> = Arc::default();
                let (g2, op) = (got.clone(), ops[j]);
                CALLS.with(|c| *c.borrow_mut() = 0);
                let mut used = false;
                POINT.with(|p| {
                    *p.borrow_mut() = Some(Box::new(move |k| {
                        if k == at && !used {
                            used = true;
                            let v = if other { std::thread::spawn(move || exec(op, &mut Ctx::new())).join().unwrap_or_default() } else { exec(op, &mut Ctx::new()) };
                            *g2.lock().unwrap() = Some(v);
                        }
                    }))
                });
                let v = exec(ops[i], &mut Ctx::new());
                POINT.with(|p| *p.borrow_mut() = None);
                let Some(inner) = got.lock().unwrap().take() else { break };
                o.states += 1;
                o.traces += 1;
                let place = if other { "on another thread" } else { "on the same thread" };
                if !check(j, &inner, &format!("inside call {at} of {:?} {place}", ops[i]), o) || !check(i, &v, &format!("with {:?} inside its call {at} {place}", ops[j]), o) {
                    return;
                }
            }
        }
        o.distinct(&(i, j));
    });
    // 5. all interleavings of two and three threads at integrand calls and operation boundaries
    let small: Vec<usize> = idx.iter().copied().filter(|&i| matches!(ops[i], Int(Spec::G(Fam::Cheb2, 2), ..) | Int(Spec::N(Nc::Simp, 1), ..) | Live(2, ..) | Live(3, ..) | LivePanic(1, 0) | LivePanic(0, 1) | New(Fam::Laguerre(_), _) | New(Fam::Hermite, 4))).collect();
    let points = |i: usize| -> usize {
        CALLS.with(|c| *c.borrow_mut() = 0);
        exec(ops[i], &mut Ctx::new());
        1 + CALLS.with(|c| *c.borrow())
    };
    let pts: Vec<usize> = (0..n).map(points).collect();
    let mut teams: Vec<Vec<Vec<usize>>> = vec![];
    for &a in &small {
        for &b in &small {
            teams.push(vec![vec![a], vec![b]]);
            for &c in &small {
                if r.thorough || (c == a) {
                    teams.push(vec![vec![a, b], vec![c]]);
                }
                if r.thorough || (a != b && b != c) {
                    if pts[a] + pts[b] + pts[c] <= r.pick(7, 9) {
                        teams.push(vec![vec![a], vec![b], vec![c]]);
                    }
                }
            }
        }
    }
    r.rule(format!("{} teams of two or three threads running one or two of {} operations each on shared live rules: every interleaving at integrand calls and operation boundaries (up to {} per team)", teams.len(), small.len(), r.pick(1700, 5000)));
    let cap = r.pick(1700u64, 5000);
    r.cases(&teams, |t| format!("threads {:?}", t.iter().map(|s| s.iter().map(|&i| ops[i]).collect::<Vec<_>>()).collect::<Vec<_>>()), |team, o| {
        let len: Vec<usize> = team.iter().map(|s| s.iter().map(|&i| pts[i]).sum()).collect();
        let mut count = 0;
        interleavings(&len, &mut |sched| {
            count += 1;
            if count > cap {
                o.count("interleaving_cap_hit", 1);
                return false;
            }
            let shared = Arc::new(LIVE.iter().map(Any::new).collect::<Vec<_>>());
            let turns = Arc::new(Turns { at: Mutex::new((0, sched.to_vec(), vec![false; team.len()])), cv: Condvar::new() });
            let outs: Vec<Vec<(usize, Vec<u64>)>> = std::thread::scope(|sc| {
                let hs: Vec<_> = team
                    .iter()
                    .enumerate()
                    .map(|(me, seq)| {
                        let (turns, shared) = (turns.clone(), shared.clone());
                        sc.spawn(move || {
                            let ops = alphabet();
                            let t2 = turns.clone();
                            POINT.with(|p| *p.borrow_mut() = Some(Box::new(move |_| t2.step(me))));
                            let mut out = vec![];
                            let mut ctx = Ctx::new();
                            for &i in seq {
                                turns.step(me);
                                out.push((i, exec_shared(ops[i], &mut ctx, &shared)));
                            }
                            POINT.with(|p| *p.borrow_mut() = None);
                            turns.done(me);
                            out
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
            });
            o.states += sched.len() as u64;
            o.traces += 1;
            o.distinct(&sched);
            for (t, out) in outs.iter().enumerate() {
                if out.len() != team[t].len() {
                    o.fail(format!("thread {t} of {team:?} under schedule {sched:?} panicked"), "");
                    return false;
                }
                for (i, v) in out {
                    if !check(*i, v, &format!("on thread {t} under schedule {sched:?}"), o) {
                        return false;
                    }
                }
            }
            true
        });
    });
    // integrands of every kind of type
    crate::callers::run(r);
    crate::wraps::gaps(r);
    // 6. equality: every pair of values from a mixed population
    equality(r);
    #[cfg(feature = "full")]
    crate::serial::stored_equality(r);
}

fn exec_shared(k: Kind, c: &mut Ctx, live: &[Any]) -> Vec<u64> {
    let mut gi = |x: f64| {
        point();
        g(x)
    };
    match k {
        Live(i, a, b) => vec![live[i].integrate(a, b, &mut gi).to_bits()],
        LivePanic(i, k) => panicking(|f| live[i].integrate(-1.0, 2.0, f), k),
        k => exec(k, c),
    }
}

fn equality(r: &Run) {
    // Gaussian rules of one type: equal exactly when pairs and parameters are
    let mut fams = fams_c07();
    fams.extend([Fam::Laguerre(-0.0), Fam::Laguerre(5e-324), Fam::Laguerre(1.0), Fam::Jacobi(1.5, 0.5), Fam::Jacobi(0.5, 1.5000000000000002), Fam::Jacobi(0.0, -0.0), Fam::Jacobi(5e-324, 0.0), Fam::Jacobi(2.0, 2.0)]);
    let max = r.pick(24, 80);
    let mut items = vec![];
    for &f in &fams {
        for &h in &fams {
            if std::mem::discriminant(&f) == std::mem::discriminant(&h) {
                items.push((f, h));
            }
        }
    }
    r.rule(format!("equality of every pair of same-type Gaussian rules over {} parameterisations and degrees 1..={max}, of every pair of composite rules with degrees around 1..={max} and the type's limits", fams.len()));
    r.cases(&items, |(f, h)| format!("equality {} / {}", f.key(), h.key()), |&(f, h), o| {
        let (xs, ys): (Vec<_>, Vec<_>) = ((1..=max).map(|n| f.build(n)).collect(), (1..=max).map(|n| h.build(n)).collect());
        let pf = |f: Fam| match f {
            Fam::Laguerre(a) => (a, 0.0),
            Fam::Jacobi(a, b) => (a, b),
            _ => (0.0, 0.0),
        };
        for x in &xs {
            for y in &ys {
                let want = x.pairs() == y.pairs() && pf(f) == pf(h);
                o.evals += 1;
                let got = x.eq_box(&**y);
                let sym = y.eq_box(&**x);
                if got != Some(want) || sym != got || x.clone_box().eq_box(&**y) != got {
                    return o.fail(format!("{} == {} is {got:?} ({sym:?} the other way), degrees {} and {}", f.key(), h.key(), x.degree(), y.degree()), format!("{} == {}", f.ctor(x.degree()), h.ctor(y.degree())));
                }
            }
        }
        o.distinct(&(f.key(), h.key()));
    });
    let mut degs: Vec<u32> = (1..=max as u32).collect();
    for b in [8, 16, 24, 31] {
        degs.extend([(1u32 << b) - 1, 1 << b, (1 << b) + 1]);
    }
    degs.extend([u32::MAX - 1, u32::MAX]);
    r.cases(&NCS, |k| format!("equality {}", k.key()), |&k, o| {
        for &a in &degs {
            for &b in &degs {
                let mut c = k.build(a);
                o.evals += 1;
                if (k.build(a) == k.build(b)) != (a == b) {
                    return o.fail(format!("{k:?} with degrees {a} and {b}: == gives {}", k.build(a) == k.build(b)), k.ctor(a));
                }
                c.change_degree(b);
                if c != k.build(b) || k.from_nz(b) != c {
                    return o.fail(format!("{k:?} changed from degree {a} to {b} does not equal a fresh one"), k.ctor(a));
                }
                o.distinct(&(a, b));
            }
        }
    });
}
