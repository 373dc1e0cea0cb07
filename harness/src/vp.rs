//! The interface between a harness and what runs it.
//!
//! In the symbolic build these are calls the engine gives their meaning: every `u*()` is a fresh
//! symbolic value, `pick` splits the path over a small range, `check` is an assertion the solver
//! decides for all values, `assume` restricts the values. In the native build the same harness
//! runs concretely: the values come from a file the engine wrote.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    unsafe extern "C" {
        fn vp_u8() -> u8;
        fn vp_u16() -> u16;
        fn vp_u32() -> u32;
        fn vp_u64() -> u64;
        fn vp_pick(n: u64) -> u64;
        fn vp_assume(c: bool);
        fn vp_check(c: bool, code: u64);
        fn vp_fail(code: u64) -> !;
        fn vp_cover(id: u32);
        fn vp_obs(x: u64);
        fn vp_known(id: u32);
        fn vp_param(i: u64) -> u64;
        fn vp_conc(x: u64) -> u64;
    }
    pub fn u8() -> u8 {
        unsafe { vp_u8() }
    }
    pub fn u16() -> u16 {
        unsafe { vp_u16() }
    }
    pub fn u32() -> u32 {
        unsafe { vp_u32() }
    }
    pub fn u64() -> u64 {
        unsafe { vp_u64() }
    }
    pub fn pick(n: u64) -> u64 {
        unsafe { vp_pick(n) }
    }
    pub fn assume(c: bool) {
        unsafe { vp_assume(c) }
    }
    pub fn check(c: bool, code: u64) {
        unsafe { vp_check(c, code) }
    }
    pub fn fail(code: u64) -> ! {
        unsafe { vp_fail(code) }
    }
    pub fn cover(id: u32) {
        unsafe { vp_cover(id) }
    }
    pub fn obs(x: u64) {
        unsafe { vp_obs(x) }
    }
    pub fn known(id: u32) {
        unsafe { vp_known(id) }
    }
    pub fn param(i: u64) -> u64 {
        unsafe { vp_param(i) }
    }
    pub fn conc(x: u64) -> u64 {
        unsafe { vp_conc(x) }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    thread_local! {
        pub static INPUTS: RefCell<std::collections::VecDeque<u128>> = RefCell::new(Default::default());
        pub static PARAMS: RefCell<Vec<u64>> = RefCell::new(vec![]);
        pub static OUT: RefCell<String> = RefCell::new(String::new());
    }
    fn next() -> u128 {
        INPUTS.with(|i| i.borrow_mut().pop_front().unwrap_or(0))
    }
    pub fn say(s: &str) {
        OUT.with(|o| {
            let mut o = o.borrow_mut();
            o.push_str(s);
            o.push('\n');
        });
    }
    pub fn flush() {
        OUT.with(|o| print!("{}", o.borrow()));
        use std::io::Write;
        let _ = std::io::stdout().flush();
    }
    pub fn u8() -> u8 {
        next() as u8
    }
    pub fn u16() -> u16 {
        next() as u16
    }
    pub fn u32() -> u32 {
        next() as u32
    }
    pub fn u64() -> u64 {
        next() as u64
    }
    pub fn pick(n: u64) -> u64 {
        let v = next() as u64;
        if v >= n {
            say("BAD-INPUT");
            flush();
            std::process::exit(4);
        }
        v
    }
    pub fn assume(c: bool) {
        if !c {
            say("ASSUMPTION-FAILED");
            flush();
            std::process::exit(4);
        }
    }
    pub fn check(c: bool, code: u64) {
        if !c {
            fail(code)
        }
    }
    pub fn fail(code: u64) -> ! {
        say(&format!("CHECK-FAILED {code}"));
        flush();
        std::process::exit(1);
    }
    pub fn cover(id: u32) {
        say(&format!("COVER {id}"));
    }
    pub fn obs(x: u64) {
        say(&format!("OBS {x}"));
    }
    pub fn known(_: u32) {}
    pub fn param(i: u64) -> u64 {
        PARAMS.with(|p| p.borrow().get(i as usize).copied().unwrap_or(0))
    }
    pub fn conc(x: u64) -> u64 {
        x
    }
}

pub use imp::*;

/// Unwrap, or report check `code`: what is called here has to succeed.
pub fn ok<T, E>(r: Result<T, E>, code: u64) -> T {
    match r {
        Ok(v) => v,
        Err(_) => fail(code),
    }
}

pub fn some<T>(r: Option<T>, code: u64) -> T {
    match r {
        Some(v) => v,
        None => fail(code),
    }
}

/// Symbolic value of at most `max`, kept symbolic.
pub fn below(n: u64) -> u64 {
    let x = u64();
    assume(x < n);
    x
}
