//! What the code under test reaches instead of the ThreadSanitizer runtime and of a few libc functions.
use crate::{At, Inside, NOBODY, ME, St, Th, controlled, point, rt, wait_go};
use std::sync::atomic::*;

// ---- system calls ----------------------------------------------------------------------------------------------------

unsafe fn raw_syscall(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3],
            in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack))
    };
    r
}
pub(crate) fn raw_futex(addr: usize, op: i32, val: u32) {
    unsafe { raw_syscall(libc::SYS_futex, [addr as i64, op as i64, val as i64, 0, 0, 0]) };
}
fn errno(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        unsafe { *libc::__errno_location() = -r as i32 };
        return -1;
    }
    r
}

#[unsafe(no_mangle)]
unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let forward = || errno(unsafe { raw_syscall(n, [a, b, c, d, e, f]) });
    if n != libc::SYS_futex || rt().is_none() {
        return forward();
    }
    match b as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME) {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let Some(m) = controlled() else { return forward() };
            let _i = Inside::enter();
            let r = rt().unwrap();
            if unsafe { (*(a as *const AtomicU32)).load(Ordering::SeqCst) } != c as u32 {
                return errno(-libc::EAGAIN as i64);
            }
            r.th[m].timed_out = false;
            r.block(m, St::Futex(a as usize, d != 0));
            if r.th[m].timed_out { errno(-libc::ETIMEDOUT as i64) } else { 0 }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let Some(_) = controlled() else { return forward() };
            let r = rt().unwrap();
            let mut n = 0;
            for t in &mut r.th {
                if n < c && let St::Futex(p, _) = t.st && p == a as usize {
                    t.st = St::Run;
                    n += 1;
                }
            }
            // a thread that is not under control may wait there too
            n + forward().max(0)
        }
        _ => forward(),
    }
}

/// the thread lets others run
pub(crate) fn give_way() {
    if let Some(m) = controlled() {
        let _i = Inside::enter();
        let r = rt().unwrap();
        let mut v = vec![];
        r.options(m, At::Blocked, &mut v);
        if !v.is_empty() {
            // stays runnable: St::Run is not offered to itself
            r.schedule(m, At::Blocked);
        }
    }
}
#[unsafe(no_mangle)]
extern "C" fn sched_yield() -> i32 {
    give_way();
    0
}
#[unsafe(no_mangle)]
unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if controlled().is_some() {
        give_way();
        return 0;
    }
    errno(unsafe { raw_syscall(libc::SYS_nanosleep, [t as i64, rem as i64, 0, 0, 0, 0]) }) as i32
}
#[unsafe(no_mangle)]
unsafe extern "C" fn clock_nanosleep(c: i32, fl: i32, t: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if controlled().is_some() {
        give_way();
        return 0;
    }
    -unsafe { raw_syscall(libc::SYS_clock_nanosleep, [c as i64, fl as i64, t as i64, rem as i64, 0, 0]) } as i32
}

// ---- threads ---------------------------------------------------------------------------------------------------------

type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
type Create = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut libc::c_void) -> i32;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;
fn next(name: &std::ffi::CStr) -> *mut libc::c_void {
    let p = unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) };
    assert!(!p.is_null());
    p
}
fn real_create() -> Create {
    static P: AtomicPtr<libc::c_void> = AtomicPtr::new(std::ptr::null_mut());
    let mut p = P.load(Ordering::Relaxed);
    if p.is_null() {
        p = next(c"pthread_create");
        P.store(p, Ordering::Relaxed);
    }
    unsafe { std::mem::transmute(p) }
}
/// an OS thread for the scheduler's own use
pub(crate) fn spawn_raw(f: Box<dyn FnOnce()>) {
    extern "C" fn start(p: *mut libc::c_void) -> *mut libc::c_void {
        let f = unsafe { Box::from_raw(p as *mut Box<dyn FnOnce()>) };
        f();
        std::ptr::null_mut()
    }
    let mut t = 0;
    let r = unsafe { real_create()(&mut t, std::ptr::null(), start, Box::into_raw(Box::new(f)) as *mut libc::c_void) };
    assert_eq!(r, 0, "cannot start a thread");
}
/// threads the code under test starts come under control as well
#[unsafe(no_mangle)]
unsafe extern "C" fn pthread_create(out: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: Start, arg: *mut libc::c_void) -> i32 {
    if controlled().is_none() || rt().is_none() {
        return unsafe { real_create()(out, attr, f, arg) };
    }
    let _i = Inside::enter();
    let r = rt().unwrap();
    let t = r.th.len();
    r.th.push(Th::new(false));
    r.th[t].started = true;
    struct Wrapped(usize, Start, *mut libc::c_void);
    extern "C" fn start(p: *mut libc::c_void) -> *mut libc::c_void {
        let w = unsafe { Box::from_raw(p as *mut Wrapped) };
        ME.with(|m| m.set(w.0));
        wait_go(&rt().unwrap().th[w.0]);
        let v = (w.1)(w.2);
        let _i = Inside::enter();
        rt().unwrap().exit(w.0);
        ME.with(|m| m.set(NOBODY));
        v
    }
    let w = Box::into_raw(Box::new(Wrapped(t, f, arg)));
    let e = unsafe { real_create()(out, attr, start, w as *mut libc::c_void) };
    if e == 0 {
        r.th[t].pthread = unsafe { *out } as usize;
    } else {
        r.th[t].st = St::Done;
    }
    e
}
#[unsafe(no_mangle)]
unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut libc::c_void) -> i32 {
    if let (Some(m), Some(r)) = (controlled(), rt()) {
        let _i = Inside::enter();
        if let Some(o) = (0..r.th.len()).rev().find(|&o| r.th[o].pthread == t as usize && t != 0) {
            while r.th[o].st != St::Done {
                r.block(m, St::Join(o));
            }
        }
    }
    let f: JoinFn = unsafe { std::mem::transmute(next(c"pthread_join")) };
    unsafe { f(t, out) }
}

// ---- ThreadSanitizer instrumentation ---------------------------------------------------------------------------------

macro_rules! ignored {
    ($($n:ident)*) => { $(#[unsafe(no_mangle)] extern "C" fn $n(_: usize) {})* };
}
ignored!(
    __tsan_func_entry __tsan_read1 __tsan_read2 __tsan_read4 __tsan_read8 __tsan_read16 __tsan_write1 __tsan_write2 __tsan_write4
    __tsan_write8 __tsan_write16 __tsan_unaligned_read2 __tsan_unaligned_read4 __tsan_unaligned_read8 __tsan_unaligned_read16
    __tsan_unaligned_write2 __tsan_unaligned_write4 __tsan_unaligned_write8 __tsan_unaligned_write16 __tsan_read_write1
    __tsan_read_write2 __tsan_read_write4 __tsan_read_write8 __tsan_read_write16 __tsan_unaligned_read_write2
    __tsan_unaligned_read_write4 __tsan_unaligned_read_write8 __tsan_unaligned_read_write16 __tsan_vptr_read
    __tsan_volatile_read1 __tsan_volatile_read2 __tsan_volatile_read4 __tsan_volatile_read8 __tsan_volatile_read16
    __tsan_volatile_write1 __tsan_volatile_write2 __tsan_volatile_write4 __tsan_volatile_write8 __tsan_volatile_write16
);
#[unsafe(no_mangle)]
extern "C" fn __tsan_init() {}
#[unsafe(no_mangle)]
extern "C" fn __tsan_func_exit() {}
#[unsafe(no_mangle)]
extern "C" fn __tsan_vptr_update(_: usize, _: usize) {}
#[unsafe(no_mangle)]
extern "C" fn __tsan_read_range(_: usize, _: usize) {}
#[unsafe(no_mangle)]
extern "C" fn __tsan_write_range(_: usize, _: usize) {}
#[unsafe(no_mangle)]
unsafe extern "C" fn __tsan_memcpy(d: *mut libc::c_void, s: *const libc::c_void, n: usize) -> *mut libc::c_void {
    unsafe { libc::memcpy(d, s, n) }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn __tsan_memmove(d: *mut libc::c_void, s: *const libc::c_void, n: usize) -> *mut libc::c_void {
    unsafe { libc::memmove(d, s, n) }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn __tsan_memset(d: *mut libc::c_void, c: i32, n: usize) -> *mut libc::c_void {
    unsafe { libc::memset(d, c, n) }
}
#[unsafe(no_mangle)]
extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    point();
}
#[unsafe(no_mangle)]
extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

/// number of atomic operations met (in the running schedule)
pub static ATOMICS: AtomicU64 = AtomicU64::new(0);
fn atomic_point() {
    if controlled().is_some() {
        ATOMICS.fetch_add(1, Ordering::Relaxed);
        point();
    }
}
macro_rules! atomics {
    ($($t:ty, $a:ty, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cs:ident $cw:ident $cv:ident;)*) => { $(
        #[unsafe(no_mangle)] unsafe extern "C" fn $load(p: *const $a, _: i32) -> $t { atomic_point(); unsafe { (*p).load(Ordering::SeqCst) } }
        #[unsafe(no_mangle)] unsafe extern "C" fn $store(p: *const $a, v: $t, _: i32) { atomic_point(); unsafe { (*p).store(v, Ordering::SeqCst) } }
        #[unsafe(no_mangle)] unsafe extern "C" fn $xchg(p: *const $a, v: $t, _: i32) -> $t { atomic_point(); unsafe { (*p).swap(v, Ordering::SeqCst) } }
        #[unsafe(no_mangle)] unsafe extern "C" fn $add(p: *const $a, v: $t, _: i32) -> $t { atomic_point(); unsafe { (*p).fetch_add(v, Ordering::SeqCst) } }
        #[unsafe(no_mangle)] unsafe extern "C" fn $sub(p: *const $a, v: $t, _: i32) -> $t { atomic_point(); unsafe { (*p).fetch_sub(v, Ordering::SeqCst) } }
        #[unsafe(no_mangle)] unsafe extern "C" fn $and(p: *const $a, v: $t, _: i32) -> $t { atomic_point(); unsafe { (*p).fetch_and(v, Ordering::SeqCst) } }
        #[unsafe(no_mangle)] unsafe extern "C" fn $or(p: *const $a, v: $t, _: i32) -> $t { atomic_point(); unsafe { (*p).fetch_or(v, Ordering::SeqCst) } }
        #[unsafe(no_mangle)] unsafe extern "C" fn $xor(p: *const $a, v: $t, _: i32) -> $t { atomic_point(); unsafe { (*p).fetch_xor(v, Ordering::SeqCst) } }
        #[unsafe(no_mangle)] unsafe extern "C" fn $nand(p: *const $a, v: $t, _: i32) -> $t { atomic_point(); unsafe { (*p).fetch_nand(v, Ordering::SeqCst) } }
        #[unsafe(no_mangle)] unsafe extern "C" fn $cs(p: *const $a, c: *mut $t, v: $t, _: i32, _: i32) -> i32 {
            atomic_point();
            match unsafe { (*p).compare_exchange(*c, v, Ordering::SeqCst, Ordering::SeqCst) } { Ok(_) => 1, Err(x) => { unsafe { *c = x }; 0 } }
        }
        #[unsafe(no_mangle)] unsafe extern "C" fn $cw(p: *const $a, c: *mut $t, v: $t, _: i32, _: i32) -> i32 {
            atomic_point();
            match unsafe { (*p).compare_exchange(*c, v, Ordering::SeqCst, Ordering::SeqCst) } { Ok(_) => 1, Err(x) => { unsafe { *c = x }; 0 } }
        }
        #[unsafe(no_mangle)] unsafe extern "C" fn $cv(p: *const $a, c: $t, v: $t, _: i32, _: i32) -> $t {
            atomic_point();
            match unsafe { (*p).compare_exchange(c, v, Ordering::SeqCst, Ordering::SeqCst) } { Ok(x) => x, Err(x) => x }
        }
    )* };
}
atomics!(
    u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val;
    u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val;
    u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val;
    u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val;
);
