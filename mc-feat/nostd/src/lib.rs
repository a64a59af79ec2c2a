#![no_std]
use core::alloc::{GlobalAlloc, Layout};
use gauss_quad::{FiniteAboveNegOneF64, GaussJacobi, GaussLegendre, Simpson};

struct NoAlloc;
unsafe impl GlobalAlloc for NoAlloc {
    unsafe fn alloc(&self, _: Layout) -> *mut u8 {
        core::ptr::null_mut()
    }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}
#[global_allocator]
static A: NoAlloc = NoAlloc;

#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! {
    loop {}
}

#[unsafe(no_mangle)]
pub extern "C" fn observe(n: usize, a: f64) -> f64 {
    let (Some(n), Some(a)) = (n.try_into().ok(), FiniteAboveNegOneF64::new(a)) else { return f64::NAN };
    let l = GaussLegendre::new(n).integrate(0.0, 1.0, |x| x * x);
    let j = GaussJacobi::new(n, a, a).integrate(0.0, 1.0, |x| x * x);
    l + j + Simpson::new(core::num::NonZeroU32::MIN).integrate(0.0, 1.0, |x| x)
}
