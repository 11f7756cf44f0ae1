// Support code of every harness crate: the observation points the executor intercepts by name,
// their native bodies (used when a counterexample is replayed), and a guard-page allocator.
#![allow(dead_code, unused_imports, unused_unsafe, unused_mut, non_snake_case, non_camel_case_types)]
#![feature(stdsimd)]
extern crate faster;
use faster::prelude::*;
use faster::arch::current::vecs::*;
use faster::vec_patterns::*;
use std::alloc::{GlobalAlloc, Layout};

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, l: usize) -> i32;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}

/// Every allocation ends at an inaccessible page and is filled with a poison byte.
struct Guarded;
pub static mut POISON: u8 = 0xAA;

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let size = (l.size() + l.align() - 1) / l.align() * l.align();
        let pages = (size + 4095) / 4096 * 4096;
        let p = mmap(0 as *mut u8, pages + 4096, 3, 0x22, -1, 0);
        if p as isize == -1 { return 0 as *mut u8; }
        let mut i = 0;
        while i < pages { *p.add(i) = POISON; i += 1; }
        mprotect(p.add(pages), 4096, 0);
        p.add(pages - size)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let size = (l.size() + l.align() - 1) / l.align() * l.align();
        let pages = (size + 4095) / 4096 * 4096;
        munmap(p.add(size).sub(pages), pages + 4096);
    }
}

#[global_allocator]
static GLOBAL: Guarded = Guarded;

#[no_mangle] pub unsafe extern "C" fn vf_set_poison(b: u8) { POISON = b; }

pub static mut LOG: [u8; 1 << 20] = [0; 1 << 20];
pub static mut LOGN: usize = 0;

#[no_mangle] pub unsafe extern "C" fn vf_log_reset() { LOGN = 0; }
#[no_mangle] pub unsafe extern "C" fn vf_log_ptr() -> *const u8 { &LOG as *const _ as *const u8 }
#[no_mangle] pub unsafe extern "C" fn vf_log_len() -> usize { LOGN }

/// observation: `n` bytes at `p` (tag distinguishes the observation point)
#[no_mangle] #[inline(never)]
pub unsafe extern "C" fn vf_obs(tag: usize, p: *const u8, n: usize) {
    let b = (tag as u32).to_le_bytes();
    let c = (n as u32).to_le_bytes();
    let mut i = 0;
    while i < 4 { LOG[LOGN + i] = b[i]; LOG[LOGN + 4 + i] = c[i]; i += 1; }
    i = 0;
    while i < n { LOG[LOGN + 8 + i] = *p.add(i); i += 1; }
    LOGN += 8 + n;
}

// Uninterpreted lane functions: `n` lanes from `i` to `o`, out[k] = F(in[k]).  The executor treats F as an
// arbitrary function; natively it is one fixed scrambling function.
macro_rules! lanefn { ($name:ident, $t:ty, $m:expr, $x:expr) => {
    #[no_mangle] #[inline(never)]
    pub unsafe extern "C" fn $name(i: *const $t, o: *mut $t, n: usize) {
        let mut k = 0;
        while k < n {
            let x = i.add(k).read_unaligned();
            o.add(k).write_unaligned(x.wrapping_mul($m) ^ $x);
            k += 1;
        }
    }
} }
lanefn!(vf_map_8, u8, 0x35, 0x5A);
lanefn!(vf_map_16, u16, 0x3535, 0x5A5B);
lanefn!(vf_map_32, u32, 0x35353535, 0x5A5B5C5D);
lanefn!(vf_map_64, u64, 0x3535353535353535, 0x5A5B5C5D5E5F6061);

/// apply the uninterpreted lane function to a whole vector
macro_rules! F { ($v:expr, $t:ty, $w:tt) => {{
    let v: $t = $v;
    let mut r: $t = v;
    concat_call!($w, &v as *const $t, &mut r as *mut $t, <$t as Packed>::WIDTH);
    r
}} }
macro_rules! concat_call {
    (8, $a:expr, $b:expr, $n:expr) => { unsafe { vf_map_8($a as *const u8, $b as *mut u8, $n) } };
    (16, $a:expr, $b:expr, $n:expr) => { unsafe { vf_map_16($a as *const u16, $b as *mut u16, $n) } };
    (32, $a:expr, $b:expr, $n:expr) => { unsafe { vf_map_32($a as *const u32, $b as *mut u32, $n) } };
    (64, $a:expr, $b:expr, $n:expr) => { unsafe { vf_map_64($a as *const u64, $b as *mut u64, $n) } };
}
/// observe a vector
macro_rules! OBS { ($tag:expr, $v:expr, $t:ty) => {{
    let v: $t = $v;
    unsafe { vf_obs($tag, &v as *const $t as *const u8, std::mem::size_of::<$t>()) };
}} }
macro_rules! LD { ($p:expr, $t:ty) => { ($p as *const $t).read_unaligned() } }
macro_rules! ST { ($p:expr, $t:ty, $v:expr) => { ($p as *mut $t).write_unaligned($v) } }
/// observe an integer
macro_rules! OBSI { ($tag:expr, $v:expr) => {{ let v: u64 = $v as u64; unsafe { vf_obs(0x1700 + $tag, &v as *const u64 as *const u8, 8) }; }} }
