//! C23: the safe interface used from many threads of one process. The sanitizers judge; the bytes
//! and the reference counts are compared as well.
use crate::msg::*;
use crate::util::*;
use ipmb::{EndpointReceiver, EndpointSender, MemoryRegion, MemoryRegistry, Message, MessageBox, Object, Options, Selector};
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Duration;

/// A region every word of which is its tag, however it is reached.
fn region(tag: u64, size: usize) -> Option<MemoryRegion> {
    let mut m = MemoryRegion::new(size)?;
    paint(&mut m, tag);
    Some(m)
}

fn paint(m: &mut MemoryRegion, tag: u64) {
    let b = m.map(..).expect("map");
    for (i, x) in b.iter_mut().enumerate() {
        *x = byte(tag, i);
    }
}

fn byte(tag: u64, i: usize) -> u8 {
    (tag.wrapping_mul(0x9e37_79b9) as usize ^ i.wrapping_mul(31)) as u8
}

fn compare(m: &mut MemoryRegion, tag: u64, r: &mut Rng, what: &str) {
    let n = m.buffer_size() as usize;
    let a = r.below(n as u64 + 1) as usize;
    let b = r.range(a as u64, n as u64) as usize;
    match m.map(a..b) {
        Ok(v) => {
            if v.len() != b - a || v.iter().enumerate().any(|(i, x)| *x != byte(tag, a + i)) {
                OUT.violation("api:bytes", format!("{what}: bytes {a}..{b} of a region of {n} differ"));
            }
        }
        Err(e) => OUT.violation("api:map", format!("{what}: {a}..{b} of {n}: {e}")),
    }
    OUT.count("windows", 1);
}

struct Pool {
    v: Mutex<Vec<Arc<(MemoryRegion, u64)>>>,
    objs: Mutex<Vec<Arc<Object>>>,
    total: AtomicU64,
}

fn tag_of(sid: u32, seq: u32) -> u64 {
    (sid as u64) << 32 | seq as u64
}

pub fn threads(seed: u64) {
    let mut r = Rng::of(&[seed, 23]);
    let n_threads = r.range(2, 7) as usize;
    let idents: Vec<String> = (0..r.range(1, 2)).map(|_| ident(&mut r)).collect();
    let pool = Arc::new(Pool {
        v: Mutex::new(vec![]),
        objs: Mutex::new(vec![]),
        total: AtomicU64::new(0),
    });
    let sent = Arc::new(AtomicU64::new(0));
    let start = Arc::new(Barrier::new(n_threads));
    let hs: Vec<_> = (0..n_threads)
        .map(|t| {
            let (pool, start, sent) = (pool.clone(), start.clone(), sent.clone());
            let mut r = r.fork();
            let idents = idents.clone();
            std::thread::Builder::new()
                .name(format!("api{t}"))
                .spawn(move || worker(t as u32, &mut r, &pool, &idents, &start, &sent))
                .unwrap()
        })
        .collect();
    must_return("api threads", 120, move || {
        for h in hs {
            let _ = h.join();
        }
    });
    // Nobody is left but this pool
    for a in pool.v.lock().unwrap().drain(..) {
        let Ok((mut m, tag)) = Arc::try_unwrap(a) else {
            harness_error("pool")
        };
        compare(&mut m, tag, &mut r, "at the end");
    }
    OUT.count("threads", n_threads as u64);
    OUT.distinct(format!("{seed}"));
}

/// The receiver is drained by a thread of its own, so that a full buffer never stops the bus.
struct Ends {
    tx: EndpointSender<SBox>,
    stop: Arc<AtomicBool>,
    drain: Option<std::thread::JoinHandle<EndpointReceiver<In>>>,
}

impl Ends {
    fn new(tx: EndpointSender<SBox>, mut rx: EndpointReceiver<In>, mut r: Rng, pool: &Arc<Pool>) -> Ends {
        let stop = Arc::new(AtomicBool::new(false));
        let (s, pool) = (stop.clone(), pool.clone());
        let drain = std::thread::spawn(move || {
            while !s.load(Ordering::Relaxed) {
                recv(&mut rx, &mut r, &pool);
            }
            rx
        });
        Ends { tx, stop, drain: Some(drain) }
    }
    fn leave(mut self, r: &mut Rng) {
        self.stop.store(true, Ordering::Relaxed);
        let rx = self.drain.take().unwrap().join().expect("drain");
        if r.pct(50) {
            drop(rx);
        } else {
            drop(self.tx);
            drop(rx);
        }
    }
}

fn join(ident: &str, t: u32, r: &mut Rng, pool: &Arc<Pool>) -> Option<Ends> {
    let mut o = Options::new(ident, ipmb::label!("all", format!("t{t}")), "tok");
    o.controller_affinity = true;
    match ipmb::join::<SBox, In>(o, Some(Duration::from_millis(20_000 + r.below(3)))) {
        Ok((tx, rx)) => {
            OUT.count("joins", 1);
            Some(Ends::new(tx, rx, r.fork(), pool))
        }
        Err(e) => {
            OUT.violation("api:join", format!("{e:?}"));
            None
        }
    }
}

fn send(tx: &EndpointSender<SBox>, t: u32, seq: &mut u32, r: &mut Rng, pool: &Pool, sent: &AtomicU64) {
    *seq += 1;
    let op = match r.below(4) {
        0 => ipmb::LabelOp::True,
        1 => ipmb::LabelOp::from("all"),
        _ => ipmb::LabelOp::from(format!("t{}", r.below(8)).as_str()),
    };
    let mut s = if r.pct(50) { Selector::unicast(op) } else { Selector::multicast(op) };
    if r.pct(20) {
        s.ttl = ms(r.below(50));
    }
    let len = r.below(3000) as usize;
    let mut m = Message::new(s, SBox::of(&V::new(t, *seq, 0, len)));
    if r.pct(40) {
        for _ in 0..r.range(1, 3) {
            let a = { let v = pool.v.lock().unwrap(); (!v.is_empty()).then(|| r.pick(&v).clone()) };
            if let Some(a) = a {
                // The region of another thread, cloned through a shared reference
                match a.0.clone() {
                    Ok(c) => m.memory_regions.push(c),
                    Err(e) => OUT.violation("api:clone", e.to_string()),
                }
            }
        }
    }
    if r.pct(30) {
        let a = { let v = pool.objs.lock().unwrap(); (!v.is_empty()).then(|| r.pick(&v).clone()) };
        if let Some(a) = a {
            match Object::clone(&a) {
                Ok(c) => m.objects.push(c),
                Err(e) => OUT.violation("api:clone_object", e.to_string()),
            }
        }
    }
    sent.fetch_add(1, Ordering::Relaxed);
    if let Err(e) = tx.send(m) {
        OUT.violation("api:send", format!("{e:?}"));
    }
    OUT.count("sends", 1);
}

fn recv(rx: &mut EndpointReceiver<In>, r: &mut Rng, pool: &Pool) -> bool {
    match rx.recv(Some(ms(r.below(4)))) {
        Ok(mut m) => {
            if let In::V(v) = &m.payload {
                if !v.ok() {
                    OUT.violation("api:payload", format!("{} {}", v.sid, v.seq));
                }
            }
            OUT.count("received", 1);
            for mut g in m.memory_regions.drain(..) {
                if g.ref_count() == 0 {
                    OUT.violation("api:count", "a live handle, and a count of 0");
                }
                let n = g.buffer_size() as usize;
                let _ = g.map(..).map(|b| b.iter().map(|x| *x as u64).sum::<u64>());
                let _ = g.map(n / 2..);
                if r.pct(30) {
                    let _ = g.clone();
                }
            }
            for o in m.objects.drain(..) {
                if r.pct(20) {
                    let mut v = pool.objs.lock().unwrap();
                    if v.len() < 20 {
                        v.push(Arc::new(o));
                    }
                }
            }
            true
        }
        Err(ipmb::RecvError::Timeout) => false,
        Err(e) => {
            OUT.violation("api:recv", format!("{e:?}"));
            false
        }
    }
}

fn worker(t: u32, r: &mut Rng, pool: &Arc<Pool>, idents: &[String], start: &Barrier, sent: &AtomicU64) {
    start.wait();
    let mut ends: Option<Ends> = None;
    let mut extra: Vec<EndpointSender<SBox>> = vec![];
    let mut own = MemoryRegistry::default();
    let mut seq = 0;
    let freed = std::rc::Rc::new(std::cell::Cell::new(0u32));
    let mut with_free = 0;
    let steps = r.range(150, 500);
    for _ in 0..steps {
        match r.below(100) {
            0..=7 => {
                if let Some(e) = ends.take() {
                    e.leave(r);
                    extra.clear();
                } else {
                    let i = r.pick(idents).clone();
                    ends = join(&i, t, r, pool);
                }
            }
            8..=54 => {
                if let Some(e) = &ends {
                    send(&e.tx, t, &mut seq, r, pool, sent);
                }
            }
            55..=59 => {
                // A burst of several threads over one handle
                if let Some(Ends { tx, .. }) = &ends {
                    let clones: Vec<_> = (0..r.range(1, 3)).map(|_| tx.clone()).collect();
                    std::thread::scope(|s| {
                        for (i, c) in clones.into_iter().enumerate() {
                            let mut r = r.fork();
                            let pool = &*pool;
                            s.spawn(move || {
                                let mut q = 0;
                                for _ in 0..10 {
                                    send(&c, 1000 + t * 10 + i as u32, &mut q, &mut r, pool, sent);
                                }
                            });
                        }
                    });
                    if r.pct(30) {
                        extra.push(tx.clone());
                    }
                }
            }
            60..=69 => {
                let tag = pool.total.fetch_add(1, Ordering::Relaxed);
                let size = [0, 1, 4083, 4084, 4085, 4096, 9000, 70_000][r.below(8) as usize];
                if let Some(m) = region(tag, size) {
                    let mut v = pool.v.lock().unwrap();
                    if v.len() >= 12 {
                        let i = r.below(v.len() as u64) as usize;
                        v.swap_remove(i);
                    }
                    v.push(Arc::new((m, tag)));
                }
            }
            70..=84 => {
                // Shared references from several threads: clone, count, size, rebuild, map the copy
                let a = { let v = pool.v.lock().unwrap(); (!v.is_empty()).then(|| r.pick(&v).clone()) };
                if let Some(a) = a {
                    let mut c = if r.pct(50) {
                        a.0.clone().expect("clone")
                    } else {
                        MemoryRegion::from_object(Object::clone(a.0.object()).expect("clone"))
                    };
                    if c.ref_count() < 1 || a.0.buffer_size() != c.buffer_size() {
                        OUT.violation("api:count", "count or size of a copy");
                    }
                    compare(&mut c, a.1, r, "a copy");
                    for (x, y) in [(0, usize::MAX), (usize::MAX, usize::MAX), (c.buffer_size() as usize + 1, c.buffer_size() as usize + 2)] {
                        if c.map(x..y).is_ok() {
                            OUT.violation("api:outside", format!("{x}..{y}"));
                        }
                    }
                    compare(&mut c, a.1, r, "a copy after refused windows");
                }
            }
            85..=89 => {
                let size = r.below(9000) as usize;
                let tag = ["a", "b"][r.below(2) as usize];
                let m = if r.pct(50) {
                    let f = freed.clone();
                    with_free += 1;
                    own.alloc_with_free(size, Some(tag), move || f.set(f.get() + 1))
                } else {
                    own.alloc(size, r.pct(50).then_some(tag))
                };
                if let Some(mut m) = m {
                    let k = tag_of(t, seq);
                    paint(&mut m, k);
                    compare(&mut m, k, r, "an allocation");
                    if r.pct(40) {
                        pool.v.lock().unwrap().push(Arc::new((m, k)));
                    }
                }
                if r.pct(20) {
                    own.maintain();
                }
                if r.pct(5) {
                    own = MemoryRegistry::default();
                }
            }
            90..=92 => {
                let mut f = [0i32; 2];
                unsafe {
                    if libc::pipe2(f.as_mut_ptr(), libc::O_CLOEXEC) == 0 {
                        let mut v = pool.objs.lock().unwrap();
                        for x in f {
                            if v.len() < 20 {
                                v.push(Arc::new(Object::from_raw(x)));
                            } else {
                                libc::close(x);
                            }
                        }
                    }
                }
            }
            93..=95 => {
                let o = { let mut v = pool.objs.lock().unwrap(); if v.is_empty() { None } else { let i = r.below(v.len() as u64) as usize; Some(v.swap_remove(i)) } };
                if let Some(o) = o {
                    if unsafe { libc::fcntl(o.as_raw().as_raw_fd(), libc::F_GETFD) } == -1 {
                        OUT.violation("api:closed", "a live object is closed");
                    }
                }
            }
            _ => {
                // Labels and formulas shared by threads
                let items: Vec<String> = (0..r.below(12)).map(|i| format!("e{}", (i * 7) % 9)).collect();
                let op = Op::random(r, &["e1".to_owned(), "e2".to_owned(), "e7".to_owned()], 5);
                let (l, o) = (Arc::new(mk_label(&items)), Arc::new(op.build()));
                let want = op.eval(&set_of(&items));
                std::thread::scope(|s| {
                    for _ in 0..2 {
                        let (l, o) = (l.clone(), o.clone());
                        s.spawn(move || {
                            let l2 = (*l).clone();
                            let o2 = (*o).clone();
                            if o.validate(&l) != want || o2.validate(&l2) != want {
                                OUT.violation("api:label", format!("{o2:?} {l2:?}"));
                            }
                            let m = SBox { uuid: [0; 16], data: vec![1, 2, 3] };
                            let _ = m.encode();
                        });
                    }
                });
                OUT.count("formulas", 2);
            }
        }
    }
    drop(extra);
    if let Some(e) = ends {
        e.leave(r);
    }
    drop(own);
    if freed.get() != with_free {
        OUT.violation("api:free", format!("{with_free} allocations with a callback, {} calls", freed.get()));
    }
}
