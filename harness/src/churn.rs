//! Endpoints that come and go, in orderly ways and not, while others exchange messages.
use crate::node::*;
use crate::util::*;
use crate::world::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};

pub struct Churn {
    on: Arc<AtomicBool>,
    threads: Vec<std::thread::JoinHandle<()>>,
    evs: Arc<Mutex<Vec<Ev>>>,
    next: Arc<Mutex<(u32, u32)>>,
    barriers: Arc<Mutex<BTreeMap<u32, u32>>>,
}

/// Starts churners: each owns a peer of its own (or this process) and joins, sends, drops halves,
/// leaves or is killed, over and over.
pub fn start(w: &mut World, r: &mut Rng, pool: &[String], kill: bool) -> Churn {
    let on = Arc::new(AtomicBool::new(true));
    let evs: Arc<Mutex<Vec<Ev>>> = Default::default();
    let next = Arc::new(Mutex::new((w.next_ep + 1000, w.next_sid + 1000)));
    let barriers: Arc<Mutex<BTreeMap<u32, u32>>> = Default::default();
    let mut threads = vec![];
    let n = r.range(1, 3);
    for i in 0..n {
        let mut r = r.fork();
        let pool = pool.to_vec();
        let (on, evs, next) = (on.clone(), evs.clone(), next.clone());
        let barriers = barriers.clone();
        let ident = w.ident.clone();
        let labels = if w.twins_pct > 0 { w.labels.clone() } else { vec![] };
        // Spare processes, spawned by the main thread
        let hosts: Vec<Host> = if i == 0 && r.pct(30) {
            vec![w.here()]
        } else {
            (0..3).map(|_| w.peer()).collect()
        };
        threads.push(std::thread::spawn(move || {
            let mut hosts = hosts;
            while on.load(Ordering::SeqCst) && !hosts.is_empty() {
                let h = hosts[0].clone();
                let (ep, sid) = {
                    let mut n = next.lock().unwrap();
                    n.0 += 1;
                    n.1 += 1;
                    *n
                };
                let mut j = JoinSpec::new(ep, &ident, &[]);
                j.label = sublabel(&mut r, &pool);
                j.label.push(format!("@{ep}"));
                if !labels.is_empty() && r.pct(25) {
                    j.label = r.pick(&labels).clone();
                    OUT.count("churn_twins", 1);
                }
                j.aff = false;
                j.rx_timeout_ms = if r.pct(30) { None } else { Some(20) };
                let v = match h.call(Cmd::Join(j)) {
                    Ok(v) => v,
                    Err(_) => return,
                };
                if let Some(e) = v["err"].as_str() {
                    OUT.violation(format!("join:{e}"), "join during churn failed");
                    return;
                }
                OUT.count("churn_joins", 1);
                let ops: Vec<Op> = (0..3).map(|_| Op::random(&mut r, &pool, 2)).collect();
                let burst = |r: &mut Rng, sid: u32, n: u32| Burst {
                    ep,
                    sid,
                    seq0: 0,
                    n,
                    seed: r.u64(),
                    ops: ops.clone(),
                    uni_pct: 40,
                    lens: vec![0, 3, 200],
                    ttls_ms: vec![0],
                    gap_us: 0,
                    barrier: true,
                    clone: true,
                    announce: true,
                    att_pct: 5,
                    odd_pct: 2,
                    long_pct: 2,
                };
                let settle = |v: Result<serde_json::Value, Gone>| {
                    if let Ok(v) = v {
                        let n = v["seq"].as_u64().unwrap_or(0) as u32;
                        barriers.lock().unwrap().insert(sid, n);
                    }
                };
                let leaving = |e: u64| {
                    evs.lock().unwrap().push(Ev::C {
                        ep,
                        b: e,
                        e: u64::MAX,
                    })
                };
                if r.pct(50) {
                    sleep_us(r.below(3000));
                }
                match r.below(if kill && matches!(h, Host::Peer(_)) { 5 } else { 4 }) {
                    0 => {
                        settle(h.call(Cmd::Burst(burst(&mut r, sid, 15))));
                        leaving(now_ns());
                        let _ = h.call(Cmd::Drop(ep));
                        OUT.count("churn_leaves", 1);
                    }
                    1 => {
                        leaving(now_ns());
                        let _ = h.call(Cmd::CloseRx(ep));
                        settle(h.call(Cmd::Burst(burst(&mut r, sid, 15))));
                        let _ = h.call(Cmd::Drop(ep));
                        OUT.count("churn_halves", 1);
                    }
                    2 => {
                        let _ = h.call(Cmd::DropTx(ep));
                        sleep_us(r.below(2000));
                        leaving(now_ns());
                        // A receiver without timeout can only be woken by its own sender
                        let (h2, ep2) = (h.clone(), ep);
                        std::thread::spawn(move || {
                            let _ = h2.call(Cmd::CloseRx(ep2));
                        });
                        OUT.count("churn_halves", 1);
                    }
                    3 => {
                        // Leaves without having received anything more, with messages in its buffer
                        let _ = h.call(Cmd::Pause(ep, true));
                        settle(h.call(Cmd::Burst(burst(&mut r, sid, 5))));
                        leaving(now_ns());
                        let _ = h.call(Cmd::Drop(ep));
                        OUT.count("churn_leaves", 1);
                    }
                    _ => {
                        // Killed in the middle of sending
                        let p = h.peer().clone();
                        p.expect_death();
                        let (h2, b) = (h.clone(), burst(&mut r, sid, 400));
                        let t = std::thread::spawn(move || {
                            let _ = h2.call(Cmd::Burst(b));
                        });
                        sleep_us(r.below(4000));
                        // Every endpoint of that process dies
                        let b = now_ns();
                        let e = p.kill();
                        let mine: Vec<u32> = vec![ep];
                        for ep in mine {
                            evs.lock().unwrap().push(Ev::C { ep, b, e });
                        }
                        let _ = t.join();
                        hosts.remove(0);
                        OUT.count("churn_kills", 1);
                    }
                }
            }
        }));
    }
    Churn {
        on,
        threads,
        evs,
        next,
        barriers,
    }
}

impl Churn {
    /// Returns the final messages of those churners that were not killed.
    pub fn stop(self, w: &mut World) -> BTreeMap<u32, u32> {
        self.on.store(false, Ordering::SeqCst);
        for t in self.threads {
            while !t.is_finished() {
                w.poll();
                sleep_us(500);
            }
            if t.join().is_err() {
                harness_error("churner");
            }
        }
        let n = self.next.lock().unwrap();
        w.next_ep = n.0 + 1;
        w.next_sid = n.1 + 1;
        w.evs.append(&mut self.evs.lock().unwrap());
        let b = self.barriers.lock().unwrap().clone();
        b
    }
}
