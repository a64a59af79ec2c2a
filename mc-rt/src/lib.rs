//! A controlled scheduler for code that uses rayon (through the rayon-core stand-in in mc-rayon-core), atomics
//! (through the ThreadSanitizer hooks in `hooks`), futex-based std locks and std threads (through interposed libc
//! symbols). Exactly one virtual thread runs at a time; at every scheduling point the next choice of a given
//! schedule is taken. Everything here runs in a forked child that executes one schedule and exits.
pub mod explore;
pub mod hooks;
pub mod pool;

use std::cell::Cell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

#[derive(Clone, Copy, Debug)]
pub struct Config {
    /// rayon worker threads
    pub workers: u32,
    /// switches away from a thread that could continue
    pub preemptions: u32,
    /// jobs taken by another worker although something else could go on
    pub steals: u32,
    /// only every so many-th integrand call (and the first few) is a scheduling point
    pub sparse: u32,
}
impl Config {
    pub const fn new(workers: u32, preemptions: u32, steals: u32) -> Config {
        Config { workers, preemptions, steals, sparse: 1 }
    }
    pub const fn sparse(self, sparse: u32) -> Config {
        Config { sparse, ..self }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Run,
    Idle,
    /// waits for a flag; workers may take other jobs meanwhile
    Latch(*const pool::Flag),
    Futex(usize, bool),
    Join(usize),
    Done,
}
#[derive(Clone, Copy)]
pub struct Job {
    pub(crate) ptr: *const (),
    pub(crate) exec: unsafe fn(*const ()),
}
struct Th {
    go: AtomicU32,
    st: St,
    worker: bool,
    started: bool,
    deque: VecDeque<Job>,
    assigned: Option<Job>,
    pthread: usize,
    /// the futex wait ended because of its timeout
    timed_out: bool,
}
impl Th {
    fn new(worker: bool) -> Box<Th> {
        let st = if worker { St::Idle } else { St::Run };
        Box::new(Th { go: AtomicU32::new(0), st, worker, started: false, deque: VecDeque::new(), assigned: None, pthread: 0, timed_out: false })
    }
}
pub(crate) struct Rt {
    th: Vec<Box<Th>>,
    injector: VecDeque<Job>,
    cfg: Config,
    prefix: Vec<u16>,
    pos: usize,
    streak: u32,
    finish: Option<Box<dyn FnOnce() -> Vec<u64>>>,
    pub(crate) steals_done: u32,
    pub(crate) switches_done: u32,
    pub(crate) points: u64,
}
/// atomic operations in a row without an integrand call after which a thread is taken to spin
const SPIN: u32 = 250;

static mut RT: *mut Rt = std::ptr::null_mut();
pub(crate) fn rt() -> Option<&'static mut Rt> {
    // only the holder of the token gets here once threads exist
    unsafe { RT.as_mut() }
}
const NOBODY: usize = usize::MAX;
thread_local! {
    static ME: Cell<usize> = const { Cell::new(NOBODY) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}
/// index of the calling virtual thread
#[inline(never)]
pub fn me() -> Option<usize> {
    let m = ME.with(|m| m.get());
    (m != NOBODY).then_some(m)
}
/// the calling thread is under control and not inside the scheduler itself
fn controlled() -> Option<usize> {
    if INSIDE.with(|i| i.get()) { None } else { me() }
}
struct Inside(bool);
impl Inside {
    fn enter() -> Inside {
        Inside(INSIDE.with(|i| i.replace(true)))
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        INSIDE.with(|i| i.set(self.0))
    }
}

fn wait_go(t: &Th) {
    while t.go.swap(0, Ordering::Acquire) == 0 {
        hooks::raw_futex(&t.go as *const AtomicU32 as usize, libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, 0);
    }
}
fn give(t: &Th) {
    t.go.store(1, Ordering::Release);
    hooks::raw_futex(&t.go as *const AtomicU32 as usize, libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 1);
}

#[derive(Clone, Copy, PartialEq)]
enum Opt {
    Continue,
    Switch(usize),
    Steal(usize, Option<usize>),
}
#[derive(Clone, Copy, PartialEq)]
pub(crate) enum At {
    /// an ordinary scheduling point: an integrand call or an atomic operation
    Point,
    /// a job has just been made available
    Push,
    /// the thread cannot go on
    Blocked,
}

impl Rt {
    fn enabled(&self, t: usize) -> bool {
        let th = &self.th[t];
        match th.st {
            St::Run => true,
            St::Idle => false,
            St::Latch(p) => unsafe { (*p).get() },
            St::Futex(..) => false,
            St::Join(o) => self.th[o].st == St::Done,
            St::Done => false,
        }
    }
    fn options(&self, me: usize, at: At, v: &mut Vec<Opt>) {
        v.clear();
        let go_on = at != At::Blocked;
        if go_on {
            v.push(Opt::Continue);
        } else if self.enabled(me) && self.th[me].st != St::Run {
            // what it waits for has happened meanwhile
            v.push(Opt::Continue);
        }
        if !go_on || self.cfg.preemptions > 0 {
            for t in 0..self.th.len() {
                if t != me && self.enabled(t) {
                    v.push(Opt::Switch(t));
                }
            }
        }
        if at != At::Point && (self.cfg.steals > 0 || v.is_empty()) {
            let mut idle_seen = false;
            for t in 0..self.th.len() {
                let th = &self.th[t];
                let thief = th.worker
                    && match th.st {
                        St::Idle => !std::mem::replace(&mut idle_seen, true),
                        St::Latch(_) => !self.enabled(t),
                        _ => false,
                    };
                if !thief {
                    continue;
                }
                for o in 0..self.th.len() {
                    if o != t && !self.th[o].deque.is_empty() {
                        v.push(Opt::Steal(t, Some(o)));
                    }
                }
                if !self.injector.is_empty() {
                    v.push(Opt::Steal(t, None));
                }
            }
        }
        if v.is_empty() {
            // nothing else can happen: timed waits run out
            for t in 0..self.th.len() {
                if let St::Futex(_, true) = self.th[t].st {
                    v.push(if t == me { Opt::Continue } else { Opt::Switch(t) });
                }
            }
        }
    }
    fn choose(&mut self, n: usize) -> usize {
        if n == 1 {
            return 0;
        }
        let k = if self.pos < self.prefix.len() { (self.prefix[self.pos] as usize).min(n - 1) } else { 0 };
        explore::record(n, k);
        self.pos += 1;
        k
    }
    /// The token holder `me` reaches a scheduling point.
    fn schedule(&mut self, me: usize, at: At) {
        let mut v = Vec::new();
        self.points += 1;
        loop {
            self.options(me, at, &mut v);
            let mut at = at;
            if at == At::Point && self.streak >= SPIN {
                // let others run when one thread seems to spin
                self.streak = 0;
                self.options(me, At::Blocked, &mut v);
                if v.is_empty() {
                    return;
                }
                at = At::Blocked;
            }
            if v.is_empty() {
                explore::end(explore::DEADLOCK, &[]);
            }
            let k = self.choose(v.len());
            match v[k] {
                Opt::Continue => {
                    self.streak += 1;
                    if let St::Futex(..) = self.th[me].st {
                        self.th[me].timed_out = true;
                    }
                    self.th[me].st = St::Run;
                    return;
                }
                Opt::Switch(t) => {
                    if at != At::Blocked {
                        self.cfg.preemptions -= 1;
                        self.switches_done += 1;
                    }
                    self.streak = 0;
                    return self.transfer(me, t);
                }
                Opt::Steal(thief, victim) => {
                    // free if nobody can go on without it
                    if v.iter().any(|o| !matches!(o, Opt::Steal(..))) {
                        self.cfg.steals = self.cfg.steals.saturating_sub(1);
                    }
                    let job = match victim {
                        Some(o) => self.th[o].deque.pop_front(),
                        None => self.injector.pop_front(),
                    };
                    self.steals_done += 1;
                    self.th[thief].assigned = job;
                    self.th[thief].st = St::Run;
                    if thief == me {
                        return;
                    }
                }
            }
        }
    }
    fn transfer(&mut self, me: usize, to: usize) {
        if let St::Futex(..) = self.th[to].st {
            self.th[to].timed_out = true;
        }
        self.th[to].st = St::Run;
        self.start(to);
        let done = self.th[me].st == St::Done;
        let mine: *const Th = &*self.th[me];
        give(&self.th[to]);
        if !done {
            wait_go(unsafe { &*mine });
        }
    }
    fn start(&mut self, t: usize) {
        if !self.th[t].started {
            self.th[t].started = true;
            if self.th[t].worker {
                hooks::spawn_raw(Box::new(move || {
                    ME.with(|m| m.set(t));
                    wait_go(&rt().unwrap().th[t]);
                    pool::worker_main(t);
                }));
            }
        }
    }
    /// `me` blocks in state `st` until it is enabled or gets a job
    pub(crate) fn block(&mut self, me: usize, st: St) {
        self.th[me].st = st;
        self.schedule(me, At::Blocked);
    }
    fn all_user_done(&self) -> bool {
        self.th.iter().all(|t| t.worker || t.st == St::Done)
    }
    /// the thread has finished: pass the token on or end the run
    fn exit(&mut self, me: usize) {
        self.th[me].st = St::Done;
        if self.all_user_done() && !self.work_left() {
            let v = (self.finish.take().unwrap())();
            explore::end(explore::OK, &v);
        }
        self.schedule(me, At::Blocked);
    }
    fn work_left(&self) -> bool {
        !self.injector.is_empty()
            || (0..self.th.len()).any(|t| self.th[t].worker && (!self.th[t].deque.is_empty() || self.th[t].st == St::Run || self.enabled(t)))
    }
}

/// A scheduling point of the program under test.
#[inline(never)]
pub fn point() {
    if let Some(m) = controlled() {
        let _i = Inside::enter();
        rt().unwrap().schedule(m, At::Point);
    }
}

static mut LOG: Vec<(u32, u64)> = Vec::new();
static LOG_LOCK: AtomicBool = AtomicBool::new(false);
/// Not subject to scheduling.
pub fn hidden<R>(f: impl FnOnce() -> R) -> R {
    let _i = Inside::enter();
    f()
}
/// records an integrand call and is a scheduling point; how many calls came before
#[inline(never)]
pub fn call(x: f64) -> usize {
    while LOG_LOCK.swap(true, Ordering::Acquire) {
        std::hint::spin_loop();
    }
    #[allow(static_mut_refs)]
    let k = unsafe {
        LOG.push((me().map_or(u32::MAX, |m| m as u32), x.to_bits()));
        LOG.len() - 1
    };
    LOG_LOCK.store(false, Ordering::Release);
    if me().is_some()
        && let Some(r) = rt()
    {
        r.streak = 0;
        if k > 2 && !k.is_multiple_of(r.cfg.sparse as usize) {
            return k;
        }
    }
    point();
    k
}
/// the recorded calls, emptied
#[inline(never)]
pub fn take_log() -> Vec<(u32, f64)> {
    while LOG_LOCK.swap(true, Ordering::Acquire) {
        std::hint::spin_loop();
    }
    #[allow(static_mut_refs)]
    let v = unsafe { std::mem::take(&mut LOG) };
    LOG_LOCK.store(false, Ordering::Release);
    v.into_iter().map(|(t, x)| (t, f64::from_bits(x))).collect()
}

/// Runs the user threads under control; never returns.
#[inline(never)]
pub fn run(cfg: Config, prefix: Vec<u16>, users: Vec<Box<dyn FnOnce() + Send>>, finish: Box<dyn FnOnce() -> Vec<u64>>) -> ! {
    let n = users.len();
    let mut th: Vec<Box<Th>> = (0..n).map(|_| Th::new(false)).collect();
    th.extend((0..cfg.workers).map(|_| Th::new(true)));
    let boxed = Box::new(Rt { th, injector: VecDeque::new(), cfg, prefix, pos: 0, streak: 0, finish: Some(finish), steals_done: 0, switches_done: 0, points: 0 });
    unsafe { RT = Box::into_raw(boxed) };
    for (t, f) in users.into_iter().enumerate() {
        rt().unwrap().th[t].started = true;
        hooks::spawn_raw(Box::new(move || {
            ME.with(|m| m.set(t));
            wait_go(&rt().unwrap().th[t]);
            // a panic that is not caught by the closure itself ends up in the result
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let _i = Inside::enter();
            if r.is_err() {
                explore::end(explore::PANIC, &[]);
            }
            rt().unwrap().exit(t);
        }));
    }
    // who starts is the first choice
    let k = if n > 1 { rt().unwrap().choose(n) } else { 0 };
    give(&rt().unwrap().th[k]);
    loop {
        unsafe { libc::pause() };
    }
}
