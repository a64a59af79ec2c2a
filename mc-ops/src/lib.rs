//! Operations on the real crate whose interleavings are explored. Instrumented, see mc-sched/rustc-wrapper.sh.
#[path = "../../mc/src/rules.rs"]
pub mod rules;

use gauss_quad::*;
use rules::*;
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Spec {
    G(Fam, usize),
    N(Nc, u32),
}
impl Spec {
    pub fn ctor(&self) -> String {
        match self {
            Spec::G(f, n) => f.ctor(*n),
            Spec::N(k, n) => k.ctor(*n),
        }
    }
}
pub enum Any {
    G(Box<dyn Rule>),
    N(NcRule),
}
impl Any {
    pub fn new(s: &Spec) -> Any {
        match *s {
            Spec::G(f, n) => Any::G(f.build(n)),
            Spec::N(k, n) => Any::N(k.build(n)),
        }
    }
    fn integrate(&self, a: f64, b: f64, f: &mut dyn FnMut(f64) -> f64) -> f64 {
        match self {
            Any::G(r) => r.integrate(a, b, f),
            Any::N(r) => r.integrate(a, b, f),
        }
    }
    fn par_integrate(&self, a: f64, b: f64, f: &(dyn Fn(f64) -> f64 + Sync)) -> f64 {
        match self {
            Any::G(r) => r.par_integrate(a, b, f),
            Any::N(r) => r.par_integrate(a, b, f),
        }
    }
    fn show(&self) -> Vec<u64> {
        match self {
            Any::G(r) => bits(&**r),
            Any::N(r) => r.nodes().iter().map(|x| x.to_bits()).chain([r.degree() as u64]).collect(),
        }
    }
}
fn bits(r: &dyn Rule) -> Vec<u64> {
    r.pairs().iter().flat_map(|p| [p.0.to_bits(), p.1.to_bits()]).chain([r.degree() as u64]).collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum R {
    Own(Spec),
    /// a rule shared by all threads of the scenario
    Shared(usize),
}
/// the integrand
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum F {
    Smooth,
    /// values of very different size and sign, but no jumps: the points may be computed in more than one way
    Wild,
    /// bounded by 0.1, so that 6 sum does not overflow before h / 6 is multiplied, and almost constant far from 0
    Bounded,
    /// a special answer on a half line
    Special(f64),
    /// infinities of both signs
    TwoInfinities,
    /// panics at the k-th call
    PanicNth(usize),
    /// panics wherever x is above
    PanicAbove(f64),
    PanicBelow(f64),
}
pub const MESSAGE: &str = "the integrand says stop";
/// payloads that are not ours, seen by a caller
pub const FOREIGN: u64 = 2;
impl F {
    pub fn value(self, x: f64) -> f64 {
        match self {
            F::Wild => (12.0 * (9.0 * x).sin()).exp2() * (5.0 * x).cos(),
            F::Bounded => 0.0625 + 0.025 * x / (1.0 + x.abs()),
            F::Special(v) => if x > 0.111 { v } else { 1.0 },
            F::TwoInfinities => if x > 0.111 { f64::INFINITY } else if x < -0.111 { f64::NEG_INFINITY } else { 1.0 },
            _ => 0.3 * x - x * x / (7.0 + x * x) + 1.0 / (3.0 + x * x),
        }
    }
    /// bound on the derivative
    pub fn slope(self, x: f64) -> f64 {
        match self {
            F::Wild => (12.0 * (9.0 * x).sin()).exp2() * 80.0,
            F::Bounded => 0.025 / (1.0 + x.abs()) / (1.0 + x.abs()),
            F::Special(_) | F::TwoInfinities => 0.0,
            _ => 2.0,
        }
    }
    /// may a call at x panic?
    pub fn stops_at(self, x: f64) -> bool {
        match self {
            F::PanicNth(_) => true,
            F::PanicAbove(t) => x > t,
            F::PanicBelow(t) => x < t,
            _ => false,
        }
    }
    fn run(self, x: f64) -> f64 {
        let k = mc_rt::call(x);
        if self.stops_at(x) && !matches!(self, F::PanicNth(n) if n != k) {
            std::panic::panic_any(MESSAGE);
        }
        self.value(x)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
/// where in a program that uses the thread pool an operation is called
pub enum Place {
    JoinLeft,
    JoinRight,
    Scope,
    Install,
    Item,
    Broadcast,
}
pub const PLACES: [Place; 6] = [Place::JoinLeft, Place::JoinRight, Place::Scope, Place::Install, Place::Item, Place::Broadcast];
impl Place {
    fn run<T: Send>(self, f: impl Fn() -> T + Sync) -> T {
        use rayon::prelude::*;
        match self {
            Place::JoinLeft => rayon::join(&f, || F::Smooth.value(0.5)).0,
            Place::JoinRight => rayon::join(|| F::Smooth.value(0.5), &f).1,
            Place::Scope => {
                let mut out = None;
                rayon::scope(|s| s.spawn(|_| out = Some(f())));
                out.expect("the spawned job has not run")
            }
            Place::Install => rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap().install(&f),
            Place::Item => (0..3u8).into_par_iter().map(|i| (i == 1).then(&f)).collect::<Vec<_>>().remove(1).unwrap(),
            Place::Broadcast => rayon::broadcast(|c| (c.index() == 0).then(&f)).swap_remove(0).unwrap(),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    ParNewAt(Place, Spec),
    ParAt(Place, R, f64, f64, F),
    New(Spec),
    ParNew(Spec),
    Int(R, f64, f64, F),
    Par(R, f64, f64, F),
    /// outer rule, parallel?, inner rule, parallel?
    Nest(R, bool, R, bool),
    Show(usize),
    Clone(usize),
    Equal(usize, usize),
    /// change_degree on a rule of its own
    Change(Nc, u32, u32),
    Parse(&'static str),
    Pow(f64, f64),
}
pub struct Scenario {
    pub shared: Vec<Spec>,
    pub users: Vec<Vec<Op>>,
}

fn with<T>(r: R, shared: &[Any], f: impl FnOnce(&Any) -> T) -> T {
    match r {
        R::Own(s) => f(&Any::new(&s)),
        R::Shared(i) => f(&shared[i]),
    }
}
/// [panicked?, value, integrand calls so far]
fn guarded(f: impl FnOnce() -> f64) -> Vec<u64> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => vec![0, v.to_bits()],
        Err(e) => vec![if e.downcast_ref::<&str>() == Some(&MESSAGE) { 1 } else { FOREIGN }, 0],
    }
}
pub fn exec(op: Op, shared: &[Any]) -> Vec<u64> {
    match op {
        Op::New(s) => Any::new(&s).show(),
        Op::ParNew(Spec::G(f, n)) => bits(&*f.par_build(n).unwrap()),
        Op::ParNewAt(p, Spec::G(f, n)) => p.run(|| bits(&*f.par_build(n).unwrap())),
        Op::ParNew(_) | Op::ParNewAt(..) => unreachable!(),
        Op::ParAt(p, r, a, b, f) => with(r, shared, |r| p.run(|| guarded(|| r.par_integrate(a, b, &|x| f.run(x))))),
        Op::Int(r, a, b, f) => with(r, shared, |r| guarded(|| r.integrate(a, b, &mut |x| f.run(x)))),
        Op::Par(r, a, b, f) => with(r, shared, |r| guarded(|| r.par_integrate(a, b, &|x| f.run(x)))),
        Op::Nest(o, po, i, pi) => with(o, shared, |o| {
            with(i, shared, |i| {
                let inner = |x: f64| {
                    let g = |y: f64| F::Smooth.run(x * 0.5 + y) * (1.0 + x);
                    if pi { i.par_integrate(0.0, 1.0 + x * x, &g) } else { i.integrate(0.0, 1.0 + x * x, &mut |y| g(y)) }
                };
                guarded(|| if po { o.par_integrate(-1.0, 2.0, &inner) } else { o.integrate(-1.0, 2.0, &mut |x| inner(x)) })
            })
        }),
        Op::Show(i) => shared[i].show(),
        Op::Clone(i) => match &shared[i] {
            Any::G(r) => {
                let c = r.clone_box();
                let mut v = bits(&*c);
                v.push((c.eq_box(&**r) == Some(true)) as u64);
                v
            }
            Any::N(r) => {
                let mut c = r.clone();
                c.change_degree(r.degree() + 1);
                vec![r.degree() as u64, c.degree() as u64, (c == *r) as u64]
            }
        },
        Op::Equal(i, j) => match (&shared[i], &shared[j]) {
            (Any::G(x), Any::G(y)) => vec![x.eq_box(&**y).map_or(7, u64::from)],
            (Any::N(x), Any::N(y)) => vec![(x == y) as u64],
            _ => vec![],
        },
        Op::Change(k, a, b) => {
            let mut r = k.build(a);
            let mut v = vec![];
            for n in [b, a] {
                r.change_degree(n);
                v.extend([r.degree() as u64, r.integrate(-1.0, 2.0, &mut |x| F::Smooth.run(x)).to_bits(), r.nodes().len() as u64]);
            }
            v
        }
        Op::Parse(s) => match s.parse::<FiniteAboveNegOneF64>() {
            Ok(p) => vec![p.get().to_bits(), p.to_string().len() as u64],
            Err(e) => e.to_string().bytes().map(u64::from).collect(),
        },
        Op::Pow(a, b) => vec![par(a).checked_pow(b).map_or(0, |p| p.get().to_bits())],
    }
}

/// Runs a scenario under control; the answer is: per user the number of operations, per operation its length and
/// words; then the integrand calls (thread, point).
pub fn run(s: &'static Scenario, cfg: mc_rt::Config, prefix: Vec<u16>) -> ! {
    use std::sync::{Arc, Mutex};
    let shared: &'static [Any] = Box::leak(s.shared.iter().map(Any::new).collect::<Vec<_>>().into_boxed_slice());
    let outs: Vec<Arc<Mutex<Vec<Vec<u64>>>>> = s.users.iter().map(|_| Arc::default()).collect();
    let users = s
        .users
        .iter()
        .zip(&outs)
        .map(|(ops, out)| {
            let out = out.clone();
            Box::new(move || {
                for (i, op) in ops.iter().enumerate() {
                    if i > 0 {
                        mc_rt::point();
                    }
                    let v = exec(*op, shared);
                    mc_rt::hidden(|| out.lock().unwrap().push(v));
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let n = s.users.len();
    mc_rt::run(
        cfg,
        prefix,
        users,
        Box::new(move || {
            let mut v = vec![];
            for o in outs.iter().take(n) {
                let o = o.lock().unwrap();
                v.push(o.len() as u64);
                for w in o.iter() {
                    v.push(w.len() as u64);
                    v.extend(w);
                }
            }
            for (t, x) in mc_rt::take_log() {
                v.extend([t as u64, x.to_bits()]);
            }
            v
        }),
    )
}
#[derive(Clone, Debug, Default)]
pub struct Answer {
    pub users: Vec<Vec<Vec<u64>>>,
    pub calls: Vec<(u64, f64)>,
}
pub fn decode(w: &[u64], users: usize) -> Answer {
    let mut i = 0;
    let mut next = || {
        i += 1;
        w[i - 1]
    };
    let users = (0..users)
        .map(|_| {
            (0..next())
                .map(|_| {
                    let n = next();
                    (0..n).map(|_| next()).collect()
                })
                .collect()
        })
        .collect();
    let rest = &w[i..];
    Answer { users, calls: rest.chunks_exact(2).map(|c| (c[0], f64::from_bits(c[1]))).collect() }
}
