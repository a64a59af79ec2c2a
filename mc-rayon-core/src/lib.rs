//! rayon-core's public interface over the controlled scheduler.
use mc_rt::pool;
use std::marker::PhantomData;
use std::sync::Arc;

pub struct FnContext {
    migrated: bool,
    _m: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _m: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn max_num_threads() -> usize {
    u16::MAX as usize
}
pub fn current_num_threads() -> usize {
    pool::num_threads()
}
pub fn current_thread_index() -> Option<usize> {
    pool::worker_index()
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    pool::has_local_jobs()
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    pool::join(|_| a(), |_| b())
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    pool::join(|m| a(FnContext::new(m)), |m| b(FnContext::new(m)))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    pool::yield_now();
    pool::worker_index().map(|_| Yield::Idle)
}
pub fn yield_local() -> Option<Yield> {
    yield_now()
}

unsafe fn forget<'a>(f: Box<dyn FnOnce() + 'a>) -> Box<dyn FnOnce()> {
    unsafe { std::mem::transmute(f) }
}
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    pool::spawn(Box::new(move || {
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() {
            std::process::abort();
        }
    }))
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    spawn(f)
}

macro_rules! scopes {
    ($scope:ident, $spawn:ident) => {
        pub struct $scope<'scope> {
            count: Arc<pool::Count>,
            #[allow(clippy::type_complexity)]
            _m: PhantomData<Box<dyn FnOnce(&$scope<'scope>) + Send + Sync + 'scope>>,
        }
        impl<'scope> $scope<'scope> {
            pub fn $spawn<B>(&self, body: B)
            where
                B: FnOnce(&$scope<'scope>) + Send + 'scope,
            {
                self.count.add();
                let s = $scope { count: self.count.clone(), _m: PhantomData };
                pool::spawn(unsafe {
                    forget(Box::new(move || {
                        let c = s.count.clone();
                        c.run(|| body(&s));
                    }))
                });
            }
            pub fn spawn_broadcast<B>(&self, _body: B)
            where
                B: Fn(&$scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                unimplemented!("spawn_broadcast under the controlled scheduler")
            }
        }
    };
}
scopes!(Scope, spawn);
scopes!(ScopeFifo, spawn_fifo);
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope { count: Arc::default(), _m: PhantomData };
    let r = s.count.run(|| op(&s));
    s.count.wait();
    r.expect("a panic in a scope was lost")
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    let s = ScopeFifo { count: Arc::default(), _m: PhantomData };
    let r = s.count.run(|| op(&s));
    s.count.wait();
    r.expect("a panic in a scope was lost")
}
pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    pool::in_worker(|_| in_place_scope(op))
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    pool::in_worker(|_| in_place_scope_fifo(op))
}

pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    _m: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
/// one job per thread of the pool; which worker runs which is up to the schedule
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    let mut out: Vec<Option<R>> = (0..n).map(|_| None).collect();
    scope(|s| {
        for (index, slot) in out.iter_mut().enumerate() {
            let op = &op;
            s.spawn(move |_| *slot = Some(op(BroadcastContext { index, n, _m: PhantomData })));
        }
    });
    out.into_iter().map(|r| r.expect("a broadcast job did not run")).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    let n = current_num_threads();
    let op = Arc::new(op);
    for index in 0..n {
        let op = op.clone();
        spawn(move || op(BroadcastContext { index, n, _m: PhantomData }));
    }
}

pub struct ThreadBuilder {
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("the global thread pool has already been initialized")
    }
}
impl std::error::Error for ThreadPoolBuildError {}

/// A pool shares the workers of the exploration, but reports its own number of threads.
#[derive(Debug)]
pub struct ThreadPool {
    n: usize,
}
struct Restore(usize);
impl Drop for Restore {
    fn drop(&mut self) {
        pool::override_threads(self.0);
    }
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        let _r = Restore(pool::override_threads(self.n));
        pool::in_worker(|_| op())
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        let op = &op;
        self.install(move || broadcast(|c| op(c)))
    }
    pub fn current_num_threads(&self) -> usize {
        self.n
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        current_thread_has_pending_tasks()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.install(|| join(a, b))
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope(op))
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope_fifo(op))
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        in_place_scope(op)
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        in_place_scope_fifo(op)
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn(op)
    }
    pub fn spawn_fifo<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn(op)
    }
    pub fn spawn_broadcast<OP>(&self, op: OP)
    where
        OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
    {
        spawn_broadcast(op)
    }
    pub fn yield_now(&self) -> Option<Yield> {
        yield_now()
    }
    pub fn yield_local(&self) -> Option<Yield> {
        yield_local()
    }
}

pub struct DefaultSpawn;
pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    n: usize,
    _m: PhantomData<S>,
}
impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        Self::new()
    }
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder { n: 0, _m: PhantomData }
    }
}
impl<S> ThreadPoolBuilder<S> {
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { n: if self.n == 0 { current_num_threads() } else { self.n } })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Err(ThreadPoolBuildError)
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self {
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn panic_handler<H: Fn(Box<dyn std::any::Any + Send>) + Send + Sync + 'static>(self, _: H) -> Self {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self {
        self
    }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self {
        self
    }
}
