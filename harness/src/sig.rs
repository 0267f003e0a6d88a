//! Signals the application handles, aimed at every thread of the process.
use crate::util::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;

static HANDLED: AtomicU64 = AtomicU64::new(0);

extern "C" fn on_signal(_: libc::c_int) {
    HANDLED.fetch_add(1, Ordering::Relaxed);
}

pub fn handled() -> u64 {
    HANDLED.load(Ordering::Relaxed)
}

pub fn install() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as *const () as usize;
        // No SA_RESTART: system calls are interrupted
        libc::sigemptyset(&mut sa.sa_mask);
        libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
        libc::sigaction(libc::SIGALRM, &sa, std::ptr::null_mut());
    }
}

/// Signals every thread but the storm's own, about every `gap_us`, until `on` is cleared.
pub fn storm(gap_us: u64, on: Arc<AtomicBool>) {
    install();
    std::thread::Builder::new()
        .name("storm".into())
        .spawn(move || unsafe {
            let me = libc::syscall(libc::SYS_gettid) as i32;
            let pid = libc::getpid();
            let mut rng = Rng::new(gap_us);
            while on.load(Ordering::SeqCst) {
                let mut tids = vec![];
                if let Ok(d) = std::fs::read_dir("/proc/self/task") {
                    for e in d.flatten() {
                        if let Ok(t) = e.file_name().to_string_lossy().parse::<i32>() {
                            if t != me {
                                tids.push(t);
                            }
                        }
                    }
                }
                for t in tids {
                    let s = if rng.pct(50) {
                        libc::SIGUSR1
                    } else {
                        libc::SIGALRM
                    };
                    libc::syscall(libc::SYS_tgkill, pid, t, s);
                }
                sleep_us(rng.below(2 * gap_us));
            }
        })
        .unwrap();
}
