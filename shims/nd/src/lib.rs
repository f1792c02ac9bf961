//! Nondeterminism layer.  Under the symbolic executor (cfg symex) every value is a fresh symbolic
//! variable; in the native replay build the values come, in the same order, from the solver's model.
#![allow(static_mut_refs)]

#[cfg(symex)]
mod imp {
    extern "C" {
        fn nd_u8() -> u8;
        fn nd_u32() -> u32;
        fn nd_u64() -> u64;
        fn nd_assume(b: bool);
        fn nd_bound(b: bool);
        fn nd_reach(p: *const u8, n: usize, c: bool);
        fn nd_note(p: *const u8, n: usize, v: u64);
        fn nd_fork(v: u64) -> u64;
        fn nd_panic_ok(b: bool);
    }
    #[inline(always)] pub fn u8() -> u8 { unsafe { nd_u8() } }
    #[inline(always)] pub fn u32() -> u32 { unsafe { nd_u32() } }
    #[inline(always)] pub fn u64() -> u64 { unsafe { nd_u64() } }
    #[inline(always)] pub fn i64() -> i64 { unsafe { nd_u64() as i64 } }
    #[inline(always)] pub fn assume(b: bool) { unsafe { nd_assume(b) } }
    #[inline(always)] pub fn bound(b: bool) { unsafe { nd_bound(b) } }
    #[inline(always)] pub fn reached(c: bool, s: &'static str) { unsafe { nd_reach(s.as_ptr(), s.len(), c) } }
    #[inline(always)] pub fn note(s: &'static str, v: u64) { unsafe { nd_note(s.as_ptr(), s.len(), v) } }
    /// from here on a panic is an allowed end of the run
    #[inline(always)] pub fn panic_ok(b: bool) { unsafe { nd_panic_ok(b) } }
    /// one path per value
    #[inline(always)] pub fn fork(v: u64) -> u64 { unsafe { nd_fork(v) } }
}

#[cfg(not(symex))]
mod imp {
    pub static mut VALUES: Vec<Vec<u8>> = Vec::new();
    pub static mut POS: usize = 0;
    pub static mut TRACE: bool = false;

    fn next<const N: usize>() -> [u8; N] {
        unsafe {
            let mut out = [0u8; N];
            if POS < VALUES.len() {
                let v = &VALUES[POS];
                assert!(v.len() == N, "REPLAY-MISMATCH: width {} expected {}", v.len(), N);
                out.copy_from_slice(v);
            }
            if TRACE {
                let mut x = 0u64;
                for i in (0..N).rev() { x = (x << 8) | out[i] as u64; }
                eprintln!("  input[{}] : {} byte(s) = {}", POS, N, x);
            }
            POS += 1;
            out
        }
    }
    pub fn u8() -> u8 { next::<1>()[0] }
    pub fn u32() -> u32 { u32::from_le_bytes(next::<4>()) }
    pub fn u64() -> u64 { u64::from_le_bytes(next::<8>()) }
    pub fn i64() -> i64 { i64::from_le_bytes(next::<8>()) }
    pub fn assume(b: bool) { if !b { panic!("REPLAY-ASSUME-FAILED"); } }
    pub fn bound(b: bool) { if !b { panic!("VERIF-BOUND-EXCEEDED"); } }
    pub fn reached(c: bool, s: &'static str) { if c && unsafe { TRACE } { eprintln!("  reached: {}", s) } }
    pub fn note(s: &'static str, v: u64) { if unsafe { TRACE } { eprintln!("  {} = {}", s, v) } }
    pub static mut PANIC_OK: bool = false;
    pub fn panic_ok(b: bool) { unsafe { PANIC_OK = b } }
    pub fn fork(v: u64) -> u64 { v }
    pub fn load(vals: Vec<Vec<u8>>, trace: bool) { unsafe { VALUES = vals; POS = 0; TRACE = trace; } }
}

pub use imp::*;

#[inline(always)]
pub fn bool() -> bool { let v = u8(); assume(v < 2); v == 1 }

/// A value in 0..n, kept symbolic
#[inline(always)]
pub fn below(n: u8) -> u8 { let v = u8(); assume(v < n); v }

/// A choice in 0..n: the solver enumerates the feasible ones, one path each
#[inline(always)]
pub fn choose(n: u8) -> u8 { fork(below(n) as u64) as u8 }

/// A yes/no choice, one path each
#[inline(always)]
pub fn flip() -> bool { choose(2) == 1 }

/// Vacuity witness: must be reachable on some path.
#[macro_export]
macro_rules! reach {
    ($name:expr) => { $crate::reached(true, $name) };
    ($cond:expr, $name:expr) => { $crate::reached($cond, $name) };
}
