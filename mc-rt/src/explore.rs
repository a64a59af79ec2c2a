//! Enumeration of schedules: every schedule runs in a process of its own, forked from a process in which the code
//! under test has never run.
use crate::{Config, rt};
use std::sync::Mutex;

pub const OK: u32 = 1;
pub const DEADLOCK: u32 = 2;
pub const PANIC: u32 = 3;
/// the process was ended by a signal, by exiting, or by its time limit
pub const DIED: u32 = 4;
pub const TIMEOUT: u32 = 5;
/// the answer does not fit: more integrand calls than any correct run of the largest case makes
pub const TOO_MUCH: u32 = 6;

const BYTES: usize = 96 << 20;
/// words of an answer: every integrand call of the largest degrees takes two
const WORDS: usize = 10 << 20;
const CHOICES: usize = 1 << 18;
#[repr(C)]
struct Shared {
    // request
    cmd_len: u32,
    prefix_len: u32,
    limit: u32,
    cfg: [u32; 4],
    cmd: [u8; 1 << 16],
    prefix: [u16; CHOICES],
    // answer
    status: u32,
    signal: i32,
    trace_len: u32,
    out_len: u32,
    steals: u32,
    switches: u32,
    points: u64,
    atomics: u64,
    trace: [(u16, u16); CHOICES],
    out: [u64; WORDS],
}
static mut SHARED: *mut Shared = std::ptr::null_mut();
fn shared() -> &'static mut Shared {
    unsafe { &mut *SHARED }
}

pub(crate) fn record(n: usize, k: usize) {
    let s = shared();
    let i = s.trace_len as usize;
    if i < CHOICES {
        s.trace[i] = (n as u16, k as u16);
        s.trace_len += 1;
    }
}
/// ends the process that ran one schedule
pub(crate) fn end(status: u32, out: &[u64]) -> ! {
    let s = shared();
    let fits = out.len() <= WORDS;
    if fits {
        s.out_len = out.len() as u32;
        s.out[..out.len()].copy_from_slice(out);
    }
    s.status = if fits { status } else { TOO_MUCH };
    if let Some(r) = rt() {
        s.steals = r.steals_done;
        s.switches = r.switches_done;
        s.points = r.points;
    }
    s.atomics = crate::hooks::ATOMICS.load(std::sync::atomic::Ordering::Relaxed);
    unsafe { libc::_exit(0) }
}

pub type Entry = fn(cmd: &[u8], cfg: Config, prefix: Vec<u16>) -> !;

pub struct Zygote {
    shared: *mut Shared,
    to: i32,
    from: i32,
}
unsafe impl Send for Zygote {}

/// Must be called while the process has a single thread.
pub fn zygotes(n: usize, entry: Entry) -> Zygotes {
    let mut v = vec![];
    for _ in 0..n {
        assert!(std::mem::size_of::<Shared>() <= BYTES);
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), BYTES, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            let (mut a, mut b) = ([0; 2], [0; 2]);
            assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(b.as_mut_ptr()) == 0);
            let parent = libc::getpid();
            match libc::fork() {
                -1 => panic!("[engine] fork failed"),
                0 => {
                    libc::close(a[1]);
                    libc::close(b[0]);
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    if libc::getppid() != parent {
                        libc::_exit(0);
                    }
                    SHARED = p as *mut Shared;
                    serve(a[0], b[1], entry)
                }
                _ => {}
            }
            libc::close(a[0]);
            libc::close(b[1]);
            v.push(Zygote { shared: p as *mut Shared, to: a[1], from: b[0] });
        }
    }
    Zygotes(Mutex::new(v))
}
fn serve(from: i32, to: i32, entry: Entry) -> ! {
    unsafe {
        let me = libc::getpid();
        loop {
            let mut c = 0u8;
            if libc::read(from, &mut c as *mut u8 as *mut libc::c_void, 1) != 1 {
                libc::_exit(0);
            }
            let s = shared();
            (s.status, s.signal, s.trace_len, s.out_len) = (0, 0, 0, 0);
            match libc::fork() {
                -1 => libc::_exit(1),
                0 => {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    if libc::getppid() != me {
                        libc::_exit(0);
                    }
                    libc::alarm(s.limit);
                    let cmd = s.cmd[..s.cmd_len as usize].to_vec();
                    let prefix = s.prefix[..s.prefix_len as usize].to_vec();
                    let cfg = Config { workers: s.cfg[0], preemptions: s.cfg[1], steals: s.cfg[2], sparse: s.cfg[3] };
                    entry(&cmd, cfg, prefix)
                }
                pid => {
                    let mut st = 0;
                    while libc::waitpid(pid, &mut st, 0) != pid {}
                    if s.status == 0 || libc::WIFSIGNALED(st) {
                        s.signal = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
                        s.status = if s.signal == libc::SIGALRM { TIMEOUT } else { DIED };
                    }
                    libc::write(to, &c as *const u8 as *const libc::c_void, 1);
                }
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: u32,
    pub signal: i32,
    pub out: Vec<u64>,
    pub trace: Vec<(u16, u16)>,
    pub steals: u32,
    pub switches: u32,
    pub points: u64,
    pub atomics: u64,
}
impl Outcome {
    pub fn describe(&self) -> String {
        match self.status {
            OK => "finished".into(),
            DEADLOCK => "deadlock: no thread can continue".into(),
            PANIC => "a panic escaped".into(),
            TIMEOUT => "does not terminate".into(),
            TOO_MUCH => "the integrand is called far too often".into(),
            _ => format!("the process died (signal {})", self.signal),
        }
    }
    pub fn schedule(&self) -> String {
        self.trace.iter().map(|c| c.1.to_string()).collect::<Vec<_>>().join(".")
    }
}

pub struct Zygotes(Mutex<Vec<Zygote>>);
#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub schedules: u64,
    pub choices: u64,
    pub points: u64,
    pub atomics: u64,
    pub max_steals: u32,
    pub capped: bool,
    /// schedules in which the number of alternatives differed from the one seen before
    pub diverged: u64,
}

impl Zygotes {
    fn with<R>(&self, f: impl FnOnce(&mut Zygote) -> R) -> R {
        let mut z = self.0.lock().unwrap().pop().expect("[engine] more exploring threads than helper processes");
        let r = f(&mut z);
        self.0.lock().unwrap().push(z);
        r
    }
    pub fn one(&self, cmd: &[u8], cfg: Config, prefix: &[u16], limit_s: u32) -> Outcome {
        self.with(|z| z.run(cmd, cfg, prefix, limit_s))
    }
    /// All schedules within the budgets of `cfg`; `visit` returns false to stop.
    pub fn explore(&self, cmd: &[u8], cfg: Config, cap: u64, limit_s: u32, mut visit: impl FnMut(&Outcome) -> bool) -> Stats {
        self.with(|z| {
            let mut st = Stats::default();
            let mut stack: Vec<(u16, u16)> = vec![];
            loop {
                let prefix: Vec<u16> = stack.iter().map(|c| c.1).collect();
                let o = z.run(cmd, cfg, &prefix, limit_s);
                st.schedules += 1;
                st.points += o.points;
                st.atomics += o.atomics;
                st.max_steals = st.max_steals.max(o.steals);
                st.choices += o.trace.len() as u64;
                if o.trace.len() < stack.len() || o.trace.iter().zip(&stack).any(|(a, b)| a != b) {
                    st.diverged += 1;
                }
                if !visit(&o) {
                    return st;
                }
                if o.trace.len() >= stack.len() {
                    stack.extend_from_slice(&o.trace[stack.len()..]);
                }
                loop {
                    match stack.pop() {
                        None => return st,
                        Some((n, k)) if k + 1 < n => {
                            stack.push((n, k + 1));
                            break;
                        }
                        Some(_) => {}
                    }
                }
                if st.schedules >= cap {
                    st.capped = true;
                    return st;
                }
            }
        })
    }
}
impl Zygote {
    fn run(&mut self, cmd: &[u8], cfg: Config, prefix: &[u16], limit_s: u32) -> Outcome {
        let s = unsafe { &mut *self.shared };
        s.cmd[..cmd.len()].copy_from_slice(cmd);
        s.cmd_len = cmd.len() as u32;
        s.prefix[..prefix.len()].copy_from_slice(prefix);
        s.prefix_len = prefix.len() as u32;
        s.cfg = [cfg.workers, cfg.preemptions, cfg.steals, cfg.sparse];
        s.limit = limit_s;
        let mut c = 1u8;
        unsafe {
            if libc::write(self.to, &c as *const u8 as *const libc::c_void, 1) != 1
                || libc::read(self.from, &mut c as *mut u8 as *mut libc::c_void, 1) != 1
            {
                panic!("[engine] a helper process is gone");
            }
        }
        Outcome {
            status: s.status,
            signal: s.signal,
            out: s.out[..s.out_len as usize].to_vec(),
            trace: s.trace[..s.trace_len as usize].to_vec(),
            steals: s.steals,
            switches: s.switches,
            points: s.points,
            atomics: s.atomics,
        }
    }
}
