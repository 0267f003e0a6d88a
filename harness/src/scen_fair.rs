//! C27: while some endpoints send without pause, everybody else is served too.
use crate::node::*;
use crate::util::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeSet, VecDeque};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;

/// Numbers shared by all the processes: [delivered, stop, sent..]
struct Shared(*mut u64);

unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

const SLOTS: usize = 512;
/// From here on, two numbers for each marker: when its send had returned, and how many messages of
/// the flood that were sent after that came before it (plus one)
const MARKERS: usize = 64;
/// So many may come before it, as others have their turn too
const OVERTAKERS: u64 = 300;

impl Shared {
    fn open(path: &PathBuf) -> Shared {
        use std::os::fd::AsRawFd;
        let f = std::fs::File::options()
            .create(true)
            .read(true)
            .write(true)
            .open(path)
            .unwrap_or_else(|e| harness_error(format!("{path:?}: {e}")));
        let _ = f.set_len(SLOTS as u64 * 8);
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOTS * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if p == libc::MAP_FAILED {
            harness_error("mmap");
        }
        Shared(p as _)
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.0.add(i) as *const AtomicU64) }
    }
    fn same(&self) -> Shared {
        Shared(self.0)
    }
    fn delivered(&self) -> u64 {
        self.at(0).load(Ordering::SeqCst)
    }
}

fn path() -> PathBuf {
    PathBuf::from(std::env::var("VH_DIR").unwrap()).join("flood")
}

/// The flood's messages that are remembered
const RING: usize = 1 << 16;

type Threads = Vec<std::thread::JoinHandle<()>>;

fn threads(node: &Node, f: impl FnOnce(&mut Threads)) {
    let mut e = node.ext.lock().unwrap();
    let b = e.entry("flood".into()).or_insert_with(|| Box::new(Threads::new()));
    f(b.downcast_mut::<Threads>().unwrap())
}

pub fn ext(node: &Arc<Node>, name: &str, v: Value) -> Value {
    match name {
        // Receives the flood and counts it
        "flood.sink" => {
            let mut o = ipmb::Options::new(v["ident"].as_str().unwrap(), ipmb::label!("sink"), "tok");
            o.controller_affinity = false;
            let Ok((tx, mut rx)) = ipmb::join::<ipmb::BytesMessage, ipmb::BytesMessage>(o, Some(ms(60_000))) else {
                return json!({"err": "join"});
            };
            let s = Shared::open(&path());
            let t = std::thread::spawn(move || {
                let _tx = tx;
                let mut ring: VecDeque<u64> = VecDeque::with_capacity(RING);
                while s.at(1).load(Ordering::SeqCst) == 0 {
                    let Ok(m) = rx.recv(Some(ms(50))) else { continue };
                    s.at(0).fetch_add(1, Ordering::SeqCst);
                    let x = u64::from_ne_bytes(m.payload.data[..8].try_into().unwrap());
                    if m.payload.format == 0 {
                        if ring.len() == RING {
                            ring.pop_front();
                        }
                        ring.push_back(x);
                        continue;
                    }
                    // A marker
                    let i = MARKERS + 2 * x as usize;
                    let t0 = now_ns();
                    while s.at(i).load(Ordering::SeqCst) == 0 && now_ns() - t0 < 3_000_000_000 {
                        std::thread::yield_now();
                    }
                    let e = s.at(i).load(Ordering::SeqCst);
                    if e != 0 {
                        let n = ring.iter().filter(|t| **t > e).count() as u64;
                        s.at(i + 1).fetch_max(n + 1, Ordering::SeqCst);
                    }
                }
            });
            threads(node, |ts| ts.push(t));
        }
        "flood.start" => {
            let e = node.ep(v["ep"].as_u64().unwrap() as u32);
            let len = v["len"].as_u64().unwrap() as usize;
            let uni = v["uni"] == true;
            let (window, sinks) = (v["window"].as_u64().unwrap(), v["sinks"].as_u64().unwrap());
            for k in v["slots"].as_array().unwrap() {
                let slot = k.as_u64().unwrap() as usize;
                let tx = e.tx.lock().unwrap().clone().unwrap();
                let s = Shared::open(&path());
                let t = std::thread::spawn(move || {
                    let mut sent = 0;
                    while s.at(1).load(Ordering::SeqCst) == 0 {
                        // What is under way is limited (for memory's sake)
                        let all: u64 = (2..MARKERS).map(|i| s.at(i).load(Ordering::Relaxed)).sum();
                        if all.saturating_sub(s.delivered() / sinks) > window {
                            std::thread::yield_now();
                            continue;
                        }
                        let mut p = ipmb::BytesMessage { format: 0, data: vec![0; len.max(8)] };
                        p.data[..8].copy_from_slice(&now_ns().to_ne_bytes());
                        let op = ipmb::LabelOp::from("sink");
                        let sel = if uni { ipmb::Selector::unicast(op) } else { ipmb::Selector::multicast(op) };
                        if tx.send(ipmb::Message::new(sel, crate::msg::SBox::of(&p))).is_err() {
                            break;
                        }
                        sent += 1;
                        s.at(slot).store(sent, Ordering::Relaxed);
                    }
                });
                threads(node, |ts| ts.push(t));
            }
        }
        // Sends a message to the sinks amid the flood
        "flood.marker" => {
            let e = node.ep(v["ep"].as_u64().unwrap() as u32);
            let k = v["k"].as_u64().unwrap();
            let tx = e.tx.lock().unwrap().clone().unwrap();
            let p = ipmb::BytesMessage { format: 1, data: k.to_ne_bytes().to_vec() };
            let r = tx.send(ipmb::Message::new(ipmb::Selector::multicast("sink"), crate::msg::SBox::of(&p)));
            Shared::open(&path()).at(MARKERS + 2 * k as usize).store(now_ns(), Ordering::SeqCst);
            if let Err(e) = r {
                return json!({"err": format!("{e}")});
            }
        }
        "flood.join" => {
            let mut all = vec![];
            threads(node, |ts| all = std::mem::take(ts));
            must_return("the end of a flood", 60, || {
                for t in all {
                    let _ = t.join();
                }
            });
        }
        _ => harness_error(format!("unknown command {name}")),
    }
    json!({})
}

/// Something that must get done while the flood goes on: not before this many other messages have
/// been delivered and this much time has passed, its absence is starvation.
const OTHERS: u64 = 50_000;
const PATIENCE_NS: u64 = 10_000_000_000;

fn served(what: &str, s: &Shared, f: impl FnOnce() -> Value + Send + 'static) -> Option<Value> {
    let (t0, d0) = (now_ns(), s.delivered());
    let done = Arc::new(AtomicBool::new(false));
    let d = done.clone();
    let th = std::thread::spawn(move || {
        let v = f();
        d.store(true, Ordering::SeqCst);
        v
    });
    let (mut last, mut moved) = (d0, t0);
    reset_overshoot();
    while !done.load(Ordering::SeqCst) {
        sleep_us(300);
        let (now, n) = (now_ns(), s.delivered());
        if n != last {
            (last, moved) = (n, now);
        }
        if now - t0 > PATIENCE_NS && n - d0 > OTHERS {
            OUT.violation(
                format!("starved:{what}"),
                format!(
                    "not done after {} ms, in which {} messages of others were delivered",
                    (now - t0) / 1_000_000,
                    n - d0
                ),
            );
            return None;
        }
        if now - moved > 20_000_000_000 {
            if worst_overshoot_ms() < 1500 {
                OUT.violation(format!("stuck:{what}"), "nothing at all has been delivered for 20 s");
            } else {
                OUT.inconclusive("nothing delivered for 20 s, machine stalled");
            }
            return None;
        }
        if now - t0 > 60_000_000_000 {
            OUT.inconclusive(format!("{what}: not done after 60 s, but the flood is slow ({} messages)", n - d0));
            return None;
        }
    }
    let v = th.join().unwrap();
    OUT.max("others_meanwhile", s.delivered() - d0);
    OUT.max("wait_ms", (now_ns() - t0) / 1_000_000);
    OUT.count("served", 1);
    OUT.count("others_delivered", s.delivered() - d0);
    Some(v)
}

pub fn fair(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 27]);
    for _ in 0..r.range(1, 3) {
        w.peer();
    }
    let mut hosts = w.hosts();
    r.shuffle(&mut hosts);
    let s = Shared::open(&path());
    let mut eps = vec![];
    for (i, h) in hosts.iter().enumerate() {
        let ep = w.join(h, &strs(&["o"]), |j| j.aff = i == 0);
        eps.push((ep, h.clone()));
    }
    // Who takes the flood in
    let sinks = r.range(1, 2);
    for _ in 0..sinks {
        let h = r.pick(&hosts).clone();
        let v = h.get(Cmd::Ext("flood.sink".into(), json!({"ident": w.ident})));
        if !v["err"].is_null() {
            OUT.violation("join:sink", format!("{v}"));
            return;
        }
    }
    // Who floods: the endpoint next to the controller, others, or both
    let mut slot = 2;
    let who = r.below(3);
    let mut story = format!("{who}");
    let uni = r.pct(30);
    for (i, (ep, h)) in eps.iter().enumerate() {
        let floods = match who {
            0 => i == 0,
            1 => i != 0,
            _ => r.pct(70),
        };
        if !floods && !(i + 1 == eps.len() && slot == 2) {
            continue;
        }
        let n = r.range(1, 4);
        let len = *r.pick(&[0u64, 16, 300, 4000]);
        let slots: Vec<u64> = (slot..slot + n).collect();
        slot += n;
        story += &format!(" {i}:{n}x{len}");
        h.get(Cmd::Ext(
            "flood.start".into(),
            json!({"ep": ep, "len": len, "slots": slots, "window": 3000, "sinks": if uni { 1 } else { sinks }, "uni": uni}),
        ));
    }
    OUT.distinct(format!("{story} {sinks} {}", hosts[0].name()));
    let t0 = now_ns();
    while s.delivered() < 3000 {
        sleep_us(500);
        if now_ns() - t0 > 30_000_000_000 {
            OUT.inconclusive("the flood does not get going");
            return;
        }
    }
    OUT.count("floods", 1);
    // Everybody else
    let mut marker = 0u64;
    'rounds: for _ in 0..r.range(3, 8) {
        let h = r.pick(&hosts).clone();
        let ep = w.ep(&h);
        let mut j = JoinSpec::new(ep, &w.ident, &["late", &format!("@{ep}")]).manual();
        j.aff = false;
        let h2 = h.clone();
        let Some(v) = served("join", &s, move || h2.get(Cmd::Join(j))) else {
            break;
        };
        if !v["err"].is_null() {
            OUT.violation("join:amid a flood", format!("{v}"));
            break;
        }
        for _ in 0..r.range(1, 5) {
            // From any endpoint to the new one
            let (from, fh) = if r.pct(30) { (ep, h.clone()) } else { r.pick(&eps).clone() };
            let sid = w.sid();
            let mut sp = SendSpec::new(from, sid, 0, Op::L(format!("@{ep}"))).len(*r.pick(&[0, 100, 5000]));
            sp.uni = r.pct(40);
            let h2 = h.clone();
            let v = served("message", &s, move || {
                fh.get(Cmd::Send(sp));
                h2.get(Cmd::Recv { ep, timeout_ns: Some(50_000_000_000), hold: 1 })
            });
            match v {
                None => break 'rounds,
                Some(v) if v["sid"].as_u64() == Some(sid as u64) => OUT.count("messages_amid", 1),
                Some(v) => {
                    OUT.violation("message:amid a flood", format!("instead of ({sid}, 0): {v}"));
                    break 'rounds;
                }
            }
        }
        // What is sent later does not come earlier, but for a few
        for _ in 0..r.range(3, 12) {
            if (MARKERS + 2 * marker as usize + 1) >= SLOTS {
                break;
            }
            let (k, h2, s2) = (marker, h.clone(), s.same());
            marker += 1;
            let v = served("marker", &s, move || {
                let v = h2.get(Cmd::Ext("flood.marker".into(), json!({"ep": ep, "k": k})));
                let t0 = now_ns();
                while s2.at(MARKERS + 2 * k as usize + 1).load(Ordering::SeqCst) == 0 && now_ns() - t0 < 50_000_000_000 {
                    sleep_us(100);
                }
                v
            });
            let Some(v) = v else { break 'rounds };
            if !v["err"].is_null() {
                OUT.violation("send:amid a flood", format!("{v}"));
                break 'rounds;
            }
            let n = s.at(MARKERS + 2 * k as usize + 1).load(Ordering::SeqCst).saturating_sub(1);
            OUT.count("markers", 1);
            OUT.max("overtakers", n);
            if n > OVERTAKERS {
                OUT.violation(
                    "starved:overtaken",
                    format!("{n} messages that were sent after a message of endpoint {ep} had been sent came before it"),
                );
                break 'rounds;
            }
        }
        if r.pct(50) {
            h.get(Cmd::Drop(ep));
        }
    }
    if OUT.violated() {
        return;
    }
    s.at(1).store(1, Ordering::SeqCst);
    for h in &hosts {
        h.get(Cmd::Ext("flood.join".into(), json!({})));
    }
    // And the bus works as before
    let bs = eps
        .iter()
        .map(|(ep, h)| {
            let b = w.burst(*ep, 10, vec![Op::leaf("o")]);
            (h.clone(), b)
        })
        .collect();
    let barriers = w.bursts(bs);
    let stable: BTreeSet<u32> = eps.iter().map(|e| e.0).collect();
    w.settle(&barriers, &stable);
    w.check_badclose();
    OUT.sample(json!({"seed": seed, "flood": story, "controller": hosts[0].name()}));
}
