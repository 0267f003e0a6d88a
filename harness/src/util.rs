//! Small tools: PRNG, clock, label formulas with their own evaluator, verdict record.
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Duration;

/// Monotonic nanoseconds shared by all the processes, not moved by the shim's virtual clock.
pub fn now_ns() -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_MONOTONIC_RAW, &mut ts);
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    }
}

pub fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}

pub fn sleep_ms(n: u64) {
    let end = now_ns() + n * 1_000_000;
    loop {
        let now = now_ns();
        if now >= end {
            return;
        }
        let left = end - now;
        unsafe {
            let ts = libc::timespec {
                tv_sec: (left / 1_000_000_000) as _,
                tv_nsec: (left % 1_000_000_000) as _,
            };
            libc::syscall(libc::SYS_nanosleep, &ts, 0usize);
        }
    }
}

pub fn sleep_us(n: u64) {
    unsafe {
        let ts = libc::timespec {
            tv_sec: (n / 1_000_000) as _,
            tv_nsec: ((n % 1_000_000) * 1000) as _,
        };
        libc::syscall(libc::SYS_nanosleep, &ts, 0usize);
    }
}

#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Self(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.u64();
        r
    }
    pub fn of(parts: &[u64]) -> Self {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for p in parts {
            h = (h ^ p).wrapping_mul(0x1000_0000_01b3);
            h ^= h >> 29;
        }
        Self::new(h)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u64() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
    pub fn fill(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

pub fn hash(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h = (h ^ *b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h
}

// ---------------------------------------------------------------- label formulas

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    T,
    F,
    L(String),
    N(Box<Op>),
    A(Box<Op>, Box<Op>),
    O(Box<Op>, Box<Op>),
}

/// In logs and commands a formula is a string in prefix notation (JSON parsers limit the nesting).
impl Serialize for Op {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut t = String::new();
        self.text(&mut t);
        s.serialize_str(&t)
    }
}

impl<'a> Deserialize<'a> for Op {
    fn deserialize<D: serde::Deserializer<'a>>(d: D) -> Result<Op, D::Error> {
        let t = String::deserialize(d)?;
        let mut at = 0;
        Op::parse(&t, &mut at).ok_or_else(|| serde::de::Error::custom("formula"))
    }
}

impl Op {
    fn text(&self, t: &mut String) {
        match self {
            Op::T => t.push('T'),
            Op::F => t.push('F'),
            Op::L(s) => {
                t.push('L');
                t.push_str(&s.len().to_string());
                t.push(':');
                t.push_str(s);
            }
            Op::N(a) => {
                t.push('N');
                a.text(t);
            }
            Op::A(a, b) => {
                t.push('A');
                a.text(t);
                b.text(t);
            }
            Op::O(a, b) => {
                t.push('O');
                a.text(t);
                b.text(t);
            }
        }
    }
    pub fn parse(t: &str, at: &mut usize) -> Option<Op> {
        let c = t.as_bytes().get(*at)?;
        *at += 1;
        Some(match c {
            b'T' => Op::T,
            b'F' => Op::F,
            b'L' => {
                let n = t[*at..].find(':')?;
                let len: usize = t[*at..*at + n].parse().ok()?;
                let start = *at + n + 1;
                *at = start + len;
                Op::L(t.get(start..*at)?.to_owned())
            }
            b'N' => Op::N(Box::new(Op::parse(t, at)?)),
            b'A' => Op::A(Box::new(Op::parse(t, at)?), Box::new(Op::parse(t, at)?)),
            b'O' => Op::O(Box::new(Op::parse(t, at)?), Box::new(Op::parse(t, at)?)),
            _ => return None,
        })
    }
    pub fn leaf(s: &str) -> Op {
        Op::L(s.to_owned())
    }
    pub fn eval(&self, set: &BTreeSet<String>) -> bool {
        match self {
            Op::T => true,
            Op::F => false,
            Op::L(s) => set.contains(s),
            Op::N(a) => !a.eval(set),
            Op::A(a, b) => {
                let (x, y) = (a.eval(set), b.eval(set));
                x & y
            }
            Op::O(a, b) => {
                let (x, y) = (a.eval(set), b.eval(set));
                x | y
            }
        }
    }
    pub fn build(&self) -> ipmb::LabelOp {
        match self {
            Op::T => ipmb::LabelOp::True,
            Op::F => ipmb::LabelOp::False,
            Op::L(s) => ipmb::LabelOp::from(s.as_str()),
            Op::N(a) => !a.build(),
            Op::A(a, b) => match &**b {
                // the other way to write it
                Op::L(s) => a.build().and(s.as_str()),
                b => a.build().and(b.build()),
            },
            Op::O(a, b) => match &**b {
                Op::L(s) => a.build().or(s.as_str()),
                b => a.build().or(b.build()),
            },
        }
    }
    pub fn random(r: &mut Rng, pool: &[String], depth: u32) -> Op {
        if depth == 0 || r.pct(20) {
            return match r.below(10) {
                0 => Op::T,
                1 => Op::F,
                _ => Op::L(r.pick(pool).clone()),
            };
        }
        match r.below(3) {
            0 => Op::N(Box::new(Op::random(r, pool, depth - 1))),
            1 => Op::A(
                Box::new(Op::random(r, pool, depth - 1)),
                Box::new(Op::random(r, pool, depth - 1)),
            ),
            _ => Op::O(
                Box::new(Op::random(r, pool, depth - 1)),
                Box::new(Op::random(r, pool, depth - 1)),
            ),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Op::T | Op::F | Op::L(_) => 1,
            Op::N(a) => 1 + a.size(),
            Op::A(a, b) | Op::O(a, b) => 1 + a.size() + b.size(),
        }
    }
}

pub fn mk_label(items: &[String]) -> ipmb::Label {
    let mut l = ipmb::Label::default();
    for i in items {
        match i.strip_prefix(REMOVE) {
            Some(i) => l.remove(i),
            None => l.insert(i),
        }
    }
    l
}

/// Marks an element that is removed from the label instead of inserted.
pub const REMOVE: &str = "~remove~";

pub fn set_of(items: &[String]) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for i in items {
        match i.strip_prefix(REMOVE) {
            Some(i) => {
                s.remove(i);
            }
            None => {
                s.insert(i.clone());
            }
        }
    }
    s
}

// ---------------------------------------------------------------- verdicts

#[derive(Default, Serialize)]
pub struct Outcome {
    pub violations: Vec<(String, String)>,
    pub inconclusive: Vec<String>,
    pub counts: BTreeMap<String, u64>,
    pub distinct: BTreeSet<String>,
    pub samples: Vec<serde_json::Value>,
}

/// The result of this process' scenario.
pub struct Out {
    pub o: Mutex<Outcome>,
}

pub static OUT: Out = Out {
    o: Mutex::new(Outcome {
        violations: vec![],
        inconclusive: vec![],
        counts: BTreeMap::new(),
        distinct: BTreeSet::new(),
        samples: vec![],
    }),
};

impl Out {
    /// `sig` identifies the kind of failure and the input that fails, it is the same on every run.
    pub fn violation(&self, sig: impl Into<String>, detail: impl Into<String>) {
        let mut o = self.o.lock().unwrap();
        let (sig, detail) = (sig.into(), detail.into());
        if o.violations.len() < 50 {
            eprintln!("VIOLATION {sig}: {detail}");
            o.violations.push((sig, detail));
        }
    }
    pub fn inconclusive(&self, why: impl Into<String>) {
        let why = why.into();
        eprintln!("INCONCLUSIVE {why}");
        self.o.lock().unwrap().inconclusive.push(why);
    }
    pub fn count(&self, what: &str, n: u64) {
        *self
            .o
            .lock()
            .unwrap()
            .counts
            .entry(what.to_owned())
            .or_default() += n;
    }
    pub fn max(&self, what: &str, n: u64) {
        let mut o = self.o.lock().unwrap();
        let e = o.counts.entry(format!("max_{what}")).or_default();
        *e = (*e).max(n);
    }
    pub fn distinct(&self, what: impl Into<String>) {
        let mut o = self.o.lock().unwrap();
        if o.distinct.len() < 4000 {
            o.distinct.insert(what.into());
        }
    }
    pub fn sample(&self, v: serde_json::Value) {
        let mut o = self.o.lock().unwrap();
        if o.samples.len() < 3 {
            o.samples.push(v);
        }
    }
    pub fn violated(&self) -> bool {
        !self.o.lock().unwrap().violations.is_empty()
    }
    pub fn finish(&self) -> ! {
        use std::io::Write;
        let o = self.o.lock().unwrap();
        println!("RESULT {}", serde_json::to_string(&*o).unwrap());
        let _ = std::io::stdout().flush();
        unsafe { libc::_exit(0) }
    }
}

/// An error of the harness itself: never a verdict.
pub fn harness_error(why: impl std::fmt::Display) -> ! {
    eprintln!("HARNESS {why}");
    unsafe { libc::_exit(3) }
}

// ---------------------------------------------------------------- scheduling canary

static WORST_OVERSHOOT: AtomicU64 = AtomicU64::new(0);
static CANARY: AtomicBool = AtomicBool::new(false);

/// Measures how late this machine wakes a thread up. Verdicts that depend on time are only given
/// while it is healthy.
pub fn start_canary() {
    if CANARY.swap(true, Ordering::SeqCst) {
        return;
    }
    std::thread::spawn(|| loop {
        let t = now_ns();
        sleep_ms(10);
        let over = now_ns() - t - 10_000_000;
        WORST_OVERSHOOT.fetch_max(over, Ordering::SeqCst);
    });
}

pub fn worst_overshoot_ms() -> u64 {
    WORST_OVERSHOOT.load(Ordering::SeqCst) / 1_000_000
}

pub fn reset_overshoot() {
    WORST_OVERSHOOT.store(0, Ordering::SeqCst);
}

// ---------------------------------------------------------------- hang watch

/// Runs `f`; if it does not return within `limit_s` the scenario ends with a violation
/// (`sig`), or inconclusive if the machine was too slow to tell.
pub fn must_return<T>(sig: &str, limit_s: u64, f: impl FnOnce() -> T) -> T {
    let done = std::sync::Arc::new(AtomicBool::new(false));
    let d = done.clone();
    let sig = sig.to_owned();
    std::thread::spawn(move || {
        let start = now_ns();
        let mut worst = 0;
        while !d.load(Ordering::SeqCst) {
            let t = now_ns();
            sleep_ms(20);
            worst = worst.max(now_ns() - t - 20_000_000);
            if now_ns() - start > limit_s * 1_000_000_000 {
                if d.load(Ordering::SeqCst) {
                    return;
                }
                if worst < 2_000_000_000 {
                    OUT.violation(
                        format!("stuck:{sig}"),
                        format!("did not return within {limit_s} s; {}", stacks()),
                    );
                } else {
                    OUT.inconclusive(format!("{sig} did not return, but the machine stalled"));
                }
                OUT.finish();
            }
        }
    });
    let r = f();
    done.store(true, Ordering::SeqCst);
    r
}

/// What every thread of this process is doing, in kernel terms.
pub fn stacks() -> String {
    let mut v = vec![];
    if let Ok(d) = std::fs::read_dir("/proc/self/task") {
        for e in d.flatten() {
            let p = e.path();
            let rd = |f: &str| std::fs::read_to_string(p.join(f)).unwrap_or_default();
            v.push(format!(
                "{}:{}",
                rd("comm").trim(),
                rd("syscall").split(' ').next().unwrap_or("").trim()
            ));
        }
    }
    format!("threads [{}]", v.join(", "))
}

pub fn ident(rng: &mut Rng) -> String {
    format!("vh.{}.{:x}", std::process::id(), rng.u64() & 0xffff_ffff)
}

/// How many descriptors this process (and its children) may have, after asking for more.
pub fn many_fds() -> u64 {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        if l.rlim_cur < 20_000 && l.rlim_cur < l.rlim_max {
            l.rlim_cur = l.rlim_max.min(20_000);
            libc::setrlimit(libc::RLIMIT_NOFILE, &l);
            libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        }
        l.rlim_cur
    }
}
