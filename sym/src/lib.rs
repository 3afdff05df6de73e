#![no_std]
use core::alloc::{GlobalAlloc, Layout};
extern crate alloc;

extern "C" {
    fn vp_panic() -> !;
    fn vp_alloc(n: usize, align: usize) -> *mut u8;
    fn vp_dealloc(p: *mut u8);
}
#[panic_handler]
fn ph(_: &core::panic::PanicInfo) -> ! {
    unsafe { vp_panic() }
}
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        vp_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
        vp_dealloc(p)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        vp_alloc(l.size(), l.align())
    }
}
#[global_allocator]
static GA: A = A;

#[no_mangle]
pub extern "C" fn keep(i: usize) -> usize {
    harness::TABLE[i].1 as usize
}
