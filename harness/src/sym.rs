//! The verification interface. In the symbolic build the functions are interpreted by the engine; in the
//! native build (feature "native") they read recorded inputs and check for real.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod raw {
    extern "C" {
        pub fn vf_bool() -> bool;
        pub fn vf_u8() -> u8;
        pub fn vf_u16() -> u16;
        pub fn vf_u32() -> u32;
        pub fn vf_u64() -> u64;
        pub fn vf_choose(n: u32) -> u32;
        pub fn vf_assume(c: bool);
        pub fn vf_check(c: bool, id: u32);
        pub fn vf_cover(id: u32);
        pub fn vf_obs(v: u64);
        pub fn vf_param(i: u32) -> u64;
        pub fn vf_conc(v: u64) -> u64;
        pub fn vf_unique(c: bool) -> bool;
        pub fn vf_sel(c: bool, a: u64, b: u64) -> u64;
        pub fn vf_allow_panic(c: bool);
        pub fn vf_live() -> u64;
        pub fn vf_leak_ok();
        pub fn vf_freeze(c: bool);
        pub fn vf_havoc(m: u32);
        pub fn vf_is_symbolic() -> bool;
    }
    extern "C-unwind" {
        pub fn vf_panic() -> !;
    }
}

#[cfg(feature = "native")]
pub mod native {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::SeqCst};
    pub struct Counting;
    pub static LIVE: AtomicI64 = AtomicI64::new(0);
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(1, SeqCst);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(1, SeqCst);
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static G: Counting = Counting;
    pub static mut INPUTS: Vec<u64> = Vec::new();
    pub static mut PARAMS: Vec<u64> = Vec::new();
    pub static mut OBS: Vec<u64> = Vec::new();
    pub static POS: AtomicUsize = AtomicUsize::new(0);
    pub static ALLOW_PANIC: AtomicBool = AtomicBool::new(false);
    pub static LEAK_OK: AtomicBool = AtomicBool::new(false);
    #[allow(static_mut_refs)]
    pub fn input() -> u64 {
        let i = POS.fetch_add(1, SeqCst);
        unsafe { INPUTS.get(i).copied().unwrap_or(0) }
    }
    pub fn fail(what: &str) -> ! {
        println!("REPLAY-FAIL {}", what);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(101)
    }
}

#[cfg(feature = "native")]
#[allow(static_mut_refs)]
mod raw {
    use super::native::*;
    use std::sync::atomic::Ordering::SeqCst;
    pub unsafe fn vf_bool() -> bool {
        input() & 1 == 1
    }
    pub unsafe fn vf_u8() -> u8 {
        input() as u8
    }
    pub unsafe fn vf_u16() -> u16 {
        input() as u16
    }
    pub unsafe fn vf_u32() -> u32 {
        input() as u32
    }
    pub unsafe fn vf_u64() -> u64 {
        input()
    }
    pub unsafe fn vf_choose(n: u32) -> u32 {
        let x = input() as u32;
        if x >= n {
            println!("REPLAY-INVALID choice");
            std::process::exit(99)
        }
        x
    }
    pub unsafe fn vf_assume(c: bool) {
        if !c {
            println!("REPLAY-INVALID assumption");
            std::process::exit(99)
        }
    }
    pub unsafe fn vf_check(c: bool, id: u32) {
        if !c {
            fail(&format!("check {}", id))
        }
    }
    pub unsafe fn vf_cover(_: u32) {}
    pub unsafe fn vf_obs(v: u64) {
        OBS.push(v)
    }
    pub unsafe fn vf_param(i: u32) -> u64 {
        PARAMS.get(i as usize).copied().unwrap_or(0)
    }
    pub unsafe fn vf_conc(v: u64) -> u64 {
        v
    }
    pub unsafe fn vf_unique(c: bool) -> bool {
        c
    }
    pub unsafe fn vf_sel(c: bool, a: u64, b: u64) -> u64 {
        if c {
            a
        } else {
            b
        }
    }
    pub unsafe fn vf_allow_panic(c: bool) {
        ALLOW_PANIC.store(c, SeqCst)
    }
    pub unsafe fn vf_live() -> u64 {
        LIVE.load(SeqCst) as u64
    }
    pub unsafe fn vf_leak_ok() {
        LEAK_OK.store(true, SeqCst)
    }
    pub unsafe fn vf_freeze(_: bool) {}
    pub unsafe fn vf_havoc(_: u32) {}
    pub unsafe fn vf_is_symbolic() -> bool {
        false
    }
    pub unsafe fn vf_panic() -> ! {
        std::panic::resume_unwind(Box::new(()))
    }
}

macro_rules! w {
    ($(fn $n:ident($($a:ident: $t:ty),*) $(-> $r:ty)? = $f:ident;)*) => {
        $(#[inline(always)] pub fn $n($($a: $t),*) $(-> $r)? { unsafe { raw::$f($($a),*) } })*
    };
}
w! {
    fn sym_bool() -> bool = vf_bool;
    fn sym_u8() -> u8 = vf_u8;
    fn sym_u16() -> u16 = vf_u16;
    fn sym_u32() -> u32 = vf_u32;
    fn sym_u64() -> u64 = vf_u64;
    fn choose(n: u32) -> u32 = vf_choose;
    fn assume(c: bool) = vf_assume;
    fn check(c: bool, id: u32) = vf_check;
    fn cover(id: u32) = vf_cover;
    fn obs(v: u64) = vf_obs;
    fn param(i: u32) -> u64 = vf_param;
    fn conc(v: u64) -> u64 = vf_conc;
    fn unique(c: bool) -> bool = vf_unique;
    fn sel(c: bool, a: u64, b: u64) -> u64 = vf_sel;
    fn allow_panic(c: bool) = vf_allow_panic;
    fn live() -> u64 = vf_live;
    fn leak_ok() = vf_leak_ok;
    fn freeze(c: bool) = vf_freeze;
    fn havoc(m: u32) = vf_havoc;
    fn is_symbolic() -> bool = vf_is_symbolic;
    fn throw() -> ! = vf_panic;
}
