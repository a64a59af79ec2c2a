//! The work-stealing pool as the rayon-core stand-in sees it.
use crate::{At, Inside, Job, St, me, rt};
use std::any::Any;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicUsize, Ordering};

/// threads a pool pretends to have; 0: the configured number
static OVERRIDE: AtomicUsize = AtomicUsize::new(0);
/// Plain memory: only the holder of the token touches it, and it must not be a scheduling point itself.
pub struct Flag(UnsafeCell<bool>);
impl Flag {
    pub const fn new() -> Flag {
        Flag(UnsafeCell::new(false))
    }
    #[inline(never)]
    pub fn get(&self) -> bool {
        unsafe { self.0.get().read_volatile() }
    }
    #[inline(never)]
    pub fn set(&self) {
        unsafe { self.0.get().write_volatile(true) }
    }
}
struct Left(UnsafeCell<usize>);
impl Left {
    #[inline(never)]
    fn change(&self, up: bool) -> usize {
        unsafe {
            let v = self.0.get().read_volatile();
            let v = if up { v + 1 } else { v - 1 };
            self.0.get().write_volatile(v);
            v
        }
    }
}
#[inline(never)]
pub fn override_threads(n: usize) -> usize {
    OVERRIDE.swap(n, Ordering::Relaxed)
}
#[inline(never)]
pub fn num_threads() -> usize {
    match OVERRIDE.load(Ordering::Relaxed) {
        0 => rt().map_or(1, |r| r.cfg.workers as usize),
        n => n,
    }
}
#[inline(never)]
pub fn worker_index() -> Option<usize> {
    let m = me()?;
    let r = rt()?;
    r.th[m].worker.then(|| m - r.th.iter().position(|t| t.worker).unwrap())
}
#[inline(never)]
fn worker() -> Option<usize> {
    let m = me()?;
    rt()?.th[m].worker.then_some(m)
}
#[inline(never)]
pub fn has_local_jobs() -> Option<bool> {
    let m = worker()?;
    Some(!rt()?.th[m].deque.is_empty())
}

pub(crate) fn worker_main(t: usize) {
    loop {
        if let Some(job) = rt().unwrap().th[t].assigned.take() {
            unsafe { (job.exec)(job.ptr) };
        }
        // what the job left in this worker's deque
        while let Some(job) = pop_local(t) {
            unsafe { (job.exec)(job.ptr) };
        }
        let _i = Inside::enter();
        let r = rt().unwrap();
        r.th[t].st = St::Idle;
        if r.all_user_done() && !r.work_left() {
            let v = (r.finish.take().unwrap())();
            crate::explore::end(crate::explore::OK, &v);
        }
        r.schedule(t, At::Blocked);
    }
}
#[inline(never)]
fn pop_local(t: usize) -> Option<Job> {
    rt().unwrap().th[t].deque.pop_back()
}
/// executes jobs, own or stolen, until the flag is set
#[inline(never)]
fn wait_until(t: usize, latch: &Flag) {
    while !latch.get() {
        if let Some(job) = pop_local(t) {
            unsafe { (job.exec)(job.ptr) };
            continue;
        }
        {
            let _i = Inside::enter();
            rt().unwrap().block(t, St::Latch(latch));
        }
        if let Some(job) = rt().unwrap().th[t].assigned.take() {
            unsafe { (job.exec)(job.ptr) };
        }
    }
}

type Res<R> = Result<R, Box<dyn Any + Send>>;
struct StackJob<F, R> {
    f: UnsafeCell<Option<F>>,
    r: UnsafeCell<Option<Res<R>>>,
    latch: Flag,
}
impl<F: FnOnce(bool) -> R, R> StackJob<F, R> {
    fn new(f: F) -> Self {
        StackJob { f: UnsafeCell::new(Some(f)), r: UnsafeCell::new(None), latch: Flag::new() }
    }
    unsafe fn execute(p: *const ()) {
        let this = unsafe { &*(p as *const Self) };
        let f = unsafe { (*this.f.get()).take().unwrap() };
        let r = catch_unwind(AssertUnwindSafe(|| f(true)));
        unsafe { *this.r.get() = Some(r) };
        this.latch.set();
    }
    fn job(&self) -> Job {
        Job { ptr: self as *const Self as *const (), exec: Self::execute }
    }
    fn into_result(self) -> R {
        match self.r.into_inner().unwrap() {
            Ok(r) => r,
            Err(e) => resume_unwind(e),
        }
    }
}

/// Runs `f(injected)` on a worker.
pub fn in_worker<R>(f: impl FnOnce(bool) -> R) -> R {
    if worker().is_some() {
        return f(false);
    }
    let (Some(m), Some(r)) = (me(), rt()) else {
        // not explored: inline
        return f(true);
    };
    let job = StackJob::new(f);
    {
        let _i = Inside::enter();
        r.injector.push_back(job.job());
        while !job.latch.get() {
            r.block(m, St::Latch(&job.latch));
        }
    }
    job.into_result()
}

pub fn join<RA, RB>(a: impl FnOnce(bool) -> RA, b: impl FnOnce(bool) -> RB) -> (RA, RB) {
    in_worker(|injected| {
        let Some(t) = worker() else {
            let ra = catch_unwind(AssertUnwindSafe(|| a(injected)));
            match ra {
                Ok(ra) => return (ra, b(injected)),
                Err(e) => {
                    let _ = catch_unwind(AssertUnwindSafe(|| b(injected)));
                    resume_unwind(e)
                }
            }
        };
        let job = StackJob::new(b);
        push(job.job());
        let ra = match catch_unwind(AssertUnwindSafe(|| a(injected))) {
            Ok(ra) => ra,
            Err(e) => {
                wait_until(t, &job.latch);
                resume_unwind(e)
            }
        };
        while !job.latch.get() {
            let Some(j) = pop_local(t) else {
                wait_until(t, &job.latch);
                break;
            };
            if std::ptr::eq(j.ptr, &job as *const _ as *const ()) {
                let b = unsafe { (*job.f.get()).take().unwrap() };
                return (ra, b(injected));
            }
            unsafe { (j.exec)(j.ptr) };
        }
        (ra, job.into_result())
    })
}
#[inline(never)]
fn push(job: Job) {
    let _i = Inside::enter();
    let r = rt().unwrap();
    match worker() {
        Some(t) => {
            r.th[t].deque.push_back(job);
            r.schedule(t, At::Push);
        }
        None => {
            r.injector.push_back(job);
            if let Some(m) = me() {
                r.schedule(m, At::Push);
            }
        }
    }
}

struct HeapJob(Box<dyn FnOnce()>);
/// a job that is run by any worker at any time; `f` must not panic
#[inline(never)]
pub fn spawn(f: Box<dyn FnOnce()>) {
    if me().is_none() || rt().is_none() {
        return f();
    }
    unsafe fn exec(p: *const ()) {
        let j = unsafe { Box::from_raw(p as *mut HeapJob) };
        (j.0)()
    }
    push(Job { ptr: Box::into_raw(Box::new(HeapJob(f))) as *const (), exec })
}

/// counts the jobs of a scope
pub struct Count {
    left: Left,
    done: Flag,
    panic: UnsafeCell<Option<Box<dyn Any + Send>>>,
}
impl Default for Count {
    fn default() -> Self {
        Count { left: Left(UnsafeCell::new(1)), done: Flag::new(), panic: UnsafeCell::new(None) }
    }
}
impl Count {
    pub fn add(&self) {
        self.left.change(true);
    }
    pub fn run<R>(&self, f: impl FnOnce() -> R) -> Option<R> {
        let r = catch_unwind(AssertUnwindSafe(f));
        let v = match r {
            Ok(v) => Some(v),
            Err(e) => {
                unsafe { *self.panic.get() = Some(e) };
                None
            }
        };
        if self.left.change(false) == 0 {
            self.done.set();
        }
        v
    }
    /// waits for all jobs; continues the panic of one of them
    #[inline(never)]
    pub fn wait(&self) {
        if let Some(t) = worker() {
            wait_until(t, &self.done);
        } else if let (Some(m), Some(r)) = (me(), rt()) {
            let _i = Inside::enter();
            while !self.done.get() {
                r.block(m, St::Latch(&self.done));
            }
        }
        if let Some(e) = unsafe { (*self.panic.get()).take() } {
            resume_unwind(e);
        }
    }
}
unsafe impl Sync for Count {}
#[inline(never)]
pub fn yield_now() {
    crate::hooks::give_way()
}
