//! The memory functions, counting.

use super::moved;
use std::arch::asm;

#[no_mangle]
pub unsafe extern "C" fn memcpy(dest: *mut u8, src: *const u8, n: usize) -> *mut u8 {
    moved(n);
    forward(dest, src, n);
    dest
}

#[inline]
unsafe fn forward(dest: *mut u8, src: *const u8, n: usize) {
    asm!("rep movsb", inout("rcx") n => _, inout("rdi") dest => _, inout("rsi") src => _,
        options(nostack, preserves_flags));
}

#[no_mangle]
pub unsafe extern "C" fn memmove(dest: *mut u8, src: *const u8, n: usize) -> *mut u8 {
    moved(n);
    if (dest as usize).wrapping_sub(src as usize) >= n {
        forward(dest, src, n);
    } else {
        asm!("std", "rep movsb", "cld", inout("rcx") n => _,
            inout("rdi") dest.wrapping_add(n).wrapping_sub(1) => _,
            inout("rsi") src.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
    }
    dest
}

#[no_mangle]
pub unsafe extern "C" fn memset(dest: *mut u8, c: i32, n: usize) -> *mut u8 {
    moved(n);
    asm!("rep stosb", inout("rcx") n => _, inout("rdi") dest => _, in("al") c as u8,
        options(nostack, preserves_flags));
    dest
}

#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    let mut i = 0;
    while i < n {
        let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
        if x != y {
            moved(i);
            return i32::from(x) - i32::from(y);
        }
        i += 1;
    }
    moved(n);
    0
}

#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    memcmp(a, b, n)
}
