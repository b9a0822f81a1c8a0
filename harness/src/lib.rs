//! The module that is executed symbolically: /repo's crate, unchanged, with its
//! exported `parse` and `tokenize`, linked with a small allocator (size-class
//! free lists over a bump pointer) so that allocation costs few instructions.
pub use bq2cst::*;

use core::alloc::{GlobalAlloc, Layout};
use core::arch::wasm32;

struct Bump;
static mut TOP: usize = 0;
static mut FREE: [usize; 32] = [0; 32];

fn class(size: usize) -> u32 {
    let s = if size < 16 { 16 } else { size };
    usize::BITS - (s - 1).leading_zeros()
}

unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = class(l.size().max(l.align())) as usize;
        let f = FREE[c];
        if f != 0 {
            FREE[c] = *(f as *const usize);
            return f as *mut u8;
        }
        let sz = 1usize << c;
        if TOP == 0 {
            TOP = wasm32::memory_size(0) << 16;
        }
        let align = if sz > 4096 { 16.max(l.align()) } else { 16.max(l.align()) };
        let p = (TOP + align - 1) & !(align - 1);
        let end = p + sz;
        let have = wasm32::memory_size(0) << 16;
        if end > have {
            let pages = (end - have + 0xffff) >> 16;
            if wasm32::memory_grow(0, pages.max(4)) == usize::MAX {
                return core::ptr::null_mut();
            }
        }
        TOP = end;
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let c = class(l.size().max(l.align())) as usize;
        *(p as *mut usize) = FREE[c];
        FREE[c] = p as usize;
    }
}

#[global_allocator]
static A: Bump = Bump;
