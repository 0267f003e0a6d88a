//! The functions of the LD_PRELOAD shim, if it is loaded.
use std::ffi::CStr;

fn sym(name: &CStr) -> Option<*mut libc::c_void> {
    let p = unsafe { libc::dlsym(libc::RTLD_DEFAULT, name.as_ptr()) };
    if p.is_null() {
        None
    } else {
        Some(p)
    }
}

pub fn loaded() -> bool {
    sym(c"vh_clock_add").is_some()
}

/// Moves this process' monotonic clock forward.
pub fn clock_add(ns: u64) -> bool {
    match sym(c"vh_clock_add") {
        Some(p) => {
            let f: extern "C" fn(i64) = unsafe { std::mem::transmute(p) };
            f(ns as i64);
            true
        }
        None => false,
    }
}

pub fn set_delay(pct: i32, us: i32, seed: u64) {
    if let Some(p) = sym(c"vh_set_delay") {
        let f: extern "C" fn(i32, i32, u64) = unsafe { std::mem::transmute(p) };
        f(pct, us, seed);
    }
}

pub fn trace() -> u64 {
    match sym(c"vh_trace") {
        Some(p) => {
            let f: extern "C" fn() -> u64 = unsafe { std::mem::transmute(p) };
            f()
        }
        None => 0,
    }
}

pub fn count(c: i32) -> u64 {
    match sym(c"vh_count") {
        Some(p) => {
            let f: extern "C" fn(i32) -> u64 = unsafe { std::mem::transmute(p) };
            f(c)
        }
        None => 0,
    }
}

/// Ends this process with SIGKILL at the n-th call of that kind from now on.
pub fn set_kill(call: &str, n: i64, after: bool) {
    if let Some(p) = sym(c"vh_set_kill") {
        let f: extern "C" fn(*const libc::c_char, libc::c_long, i32) = unsafe { std::mem::transmute(p) };
        let c = std::ffi::CString::new(call).unwrap();
        f(c.as_ptr(), n, after as i32);
    }
}

/// Lets socket calls of this process fail now and then.
pub fn set_fault(permille: i32, seed: u64) {
    if let Some(p) = sym(c"vh_set_fault") {
        let f: extern "C" fn(i32, u64) = unsafe { std::mem::transmute(p) };
        f(permille, seed);
    }
}

pub fn faults() -> u64 {
    match sym(c"vh_faults") {
        Some(p) => {
            let f: extern "C" fn() -> u64 = unsafe { std::mem::transmute(p) };
            f()
        }
        None => 0,
    }
}
