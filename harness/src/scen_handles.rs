//! C26: handles of one endpoint used, cloned and dropped from many threads, with full buffers.
use crate::model::*;
use crate::node::*;
use crate::util::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;

/// The receiver of an endpoint with full buffers goes away (or starts to receive), at any moment.
pub fn saturated(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 26]);
    for _ in 0..r.range(1, 2) {
        let env = if r.pct(40) {
            vec![("VH_DELAY", format!("{},{},{}", r.pick(&[2, 10]), r.pick(&[50, 500]), r.u64() >> 1))]
        } else {
            vec![]
        };
        w.peer_env(&env);
    }
    if r.pct(30) {
        crate::shim::set_delay(*r.pick(&[2, 10]), *r.pick(&[50, 500]), seed);
    }
    let mut hosts = w.hosts();
    r.shuffle(&mut hosts);
    // Everyone else, the first hosts the controller
    let mut eps = vec![];
    for (i, h) in hosts.iter().enumerate() {
        let blocking = r.pct(30);
        let ep = w.join(h, &strs(&["o"]), |j| {
            j.aff = i == 0;
            if blocking {
                j.rx_timeout_ms = None;
            }
        });
        eps.push((ep, h.clone()));
    }
    let stable: BTreeSet<u32> = eps.iter().map(|e| e.0).collect();
    let mut settled = BTreeSet::new();
    for _ in 0..r.range(2, 4) {
        let h = r.pick(&hosts).clone();
        let manual = r.pct(50);
        let t = w.join(&h, &strs(&["t"]), |j| {
            j.aff = false;
            j.auto = !manual;
        });
        if !manual {
            h.get(Cmd::Pause(t, true));
        }
        let mut bs = vec![];
        let n = r.range(1, 5);
        let len = *r.pick(&[0u32, 500, 4000, 30_000, 100_000]);
        for k in 0..n {
            let (ep, eh) = if r.pct(40) { (t, h.clone()) } else { r.pick(&eps).clone() };
            let ops = match r.below(3) {
                0 => vec![Op::leaf("t")],
                1 => vec![Op::leaf("t"), Op::leaf("o")],
                _ => vec![Op::T],
            };
            let mut b = w.burst(ep, (r.range(200_000, 3_000_000) / (len as u64 + 200)).min(1500) as u32, ops);
            b.lens = vec![len];
            crate::traffic::spice(&mut b, &mut r);
            (b.odd_pct, b.long_pct) = (0, 0);
            b.uni_pct = *r.pick(&[0, 0, 50]);
            // Without a clone of its own this burst ends with the endpoint
            b.clone = true;
            b.barrier = true;
            let _ = k;
            bs.push((eh, b));
        }
        let own: Vec<Burst> = bs.iter().map(|b| b.1.clone()).collect();
        let moment = *r.pick(&[0, 1, 3, 10, 40, 150]);
        let act = r.below(5);
        let done = Arc::new(AtomicBool::new(false));
        let closed = Arc::new(AtomicU64::new(0));
        let th = {
            let (h, done, closed) = (h.clone(), done.clone(), closed.clone());
            let us = moment * 1000 + r.below(1000);
            std::thread::spawn(move || {
                sleep_us(us);
                closed.store(now_ns(), Ordering::SeqCst);
                match act {
                    0 => {
                        must_return("drop of a receiver with full buffers", 40, || h.get(Cmd::CloseRx(t)));
                    }
                    1 => {
                        // All handles but the clones that are sending
                        must_return("drop of an endpoint with full buffers", 40, || h.get(Cmd::Drop(t)));
                    }
                    2 => {
                        must_return("drop of a sender with full buffers", 40, || h.get(Cmd::DropTx(t)));
                        must_return("drop of a receiver with full buffers", 40, || h.get(Cmd::CloseRx(t)));
                    }
                    3 => {
                        // Receives some, and leaves with the rest
                        if manual {
                            for _ in 0..7 {
                                h.get(Cmd::Recv { ep: t, timeout_ns: Some(1_000_000), hold: 1 });
                            }
                        } else {
                            h.get(Cmd::Pause(t, false));
                            sleep_us(us % 3000);
                        }
                        must_return("drop of a receiver with full buffers", 40, || h.get(Cmd::CloseRx(t)));
                    }
                    _ => {
                        // Receives all of it
                        if !manual {
                            h.get(Cmd::Pause(t, false));
                        } else {
                            while !done.load(Ordering::SeqCst) {
                                h.get(Cmd::Recv { ep: t, timeout_ns: Some(2_000_000), hold: 1 });
                            }
                        }
                    }
                }
            })
        };
        let barriers = w.bursts(bs);
        let drains = act == 4 && manual;
        let mut th = Some(th);
        if !drains {
            let _ = th.take().unwrap().join();
        }
        // From when the delivery to the endpoint is not demanded
        w.evs.push(Ev::C { ep: t, b: if act == 4 { now_ns() } else { closed.load(Ordering::SeqCst) }, e: u64::MAX });
        let mut who = stable.clone();
        if act == 4 && !manual {
            who.insert(t);
        }
        OUT.count("saturated", 1);
        OUT.count("sends_that_returned", own.iter().map(|b| b.n as u64).sum());
        OUT.distinct(format!("{moment} {act} {len} {n} {manual} {}", h.name()));
        let ok = w.settle(&barriers, &who);
        done.store(true, Ordering::SeqCst);
        if let Some(th) = th {
            let _ = th.join();
        }
        if !ok {
            break;
        }
        settled.extend(barriers.keys().copied());
        must_return("drop of an endpoint", 40, || h.get(Cmd::Drop(t)));
    }
    w.check(&Rules {
        settled: Some(settled),
        ..Rules::default()
    });
    w.check_badclose();
    OUT.sample(json!({"seed": seed, "controller": eps[0].1.name()}));
}

/// Threads that clone, send through and drop the sender while it is received and dropped.
pub fn handles(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 261]);
    for _ in 0..r.range(0, 2) {
        w.peer();
    }
    if r.pct(50) && crate::shim::loaded() {
        crate::shim::set_delay(*r.pick(&[2, 10]), *r.pick(&[50, 500]), seed);
    }
    let mut hosts = w.hosts();
    r.shuffle(&mut hosts);
    let mut eps = vec![];
    for (i, h) in hosts.iter().enumerate() {
        let ep = w.join(h, &strs(&["o"]), |j| j.aff = i == 0);
        eps.push(ep);
    }
    let stable: BTreeSet<u32> = eps.iter().copied().collect();
    let mut settled = BTreeSet::new();
    let mut barriers = std::collections::BTreeMap::new();
    let rounds = r.range(2, 4);
    for _ in 0..rounds {
        let mut ths = vec![];
        for h in &hosts {
            if r.pct(70) {
                let ep = w.ep(h);
                let threads = r.range(2, 6);
                let sids: Vec<u32> = (0..threads).map(|_| w.sid()).collect();
                let ident = w.ident.clone();
                let (h, seed) = (h.clone(), r.u64());
                ths.push(std::thread::spawn(move || {
                    let v = must_return("concurrent use of an endpoint", 60, || {
                        h.get(Cmd::Ext("tx.churn".into(), json!({"ep": ep, "ident": ident, "sids": sids, "seed": seed})))
                    });
                    v
                }));
            }
        }
        for t in ths {
            let v = t.join().unwrap();
            for s in v["sids"].as_array().into_iter().flatten() {
                let (sid, n) = (s[0].as_u64().unwrap() as u32, s[1].as_u64().unwrap() as u32);
                barriers.insert(sid, n);
                settled.insert(sid);
            }
            OUT.count("clones", v["clones"].as_u64().unwrap_or(0));
            OUT.count("receiver_drops", 1);
            OUT.count("received_amid", v["received"].as_u64().unwrap_or(0));
            OUT.distinct(v["story"].as_str().unwrap_or("").to_owned());
        }
    }
    if w.settle(&barriers, &stable) {
        w.check(&Rules {
            settled: Some(settled),
            ..Rules::default()
        });
    }
    w.check_badclose();
    OUT.sample(json!({"seed": seed, "rounds": rounds}));
}

/// One endpoint, used from many threads at once.
pub fn tx_churn(node: &Arc<Node>, v: Value) -> Value {
    let mut r = Rng::new(v["seed"].as_u64().unwrap());
    let ep = v["ep"].as_u64().unwrap() as u32;
    let mut j = JoinSpec::new(ep, v["ident"].as_str().unwrap(), &["t", &format!("@{ep}")]);
    j.aff = false;
    j.auto = false;
    let res = node.exec(Cmd::Join(j));
    if !res["err"].is_null() {
        OUT.violation("join:handles", format!("{res}"));
        return json!({});
    }
    let e = node.ep(ep);
    let tx = Arc::new(std::sync::Mutex::new(e.tx.lock().unwrap().take()));
    let mut rx = e.rx.lock().unwrap().take().unwrap();
    let clones = Arc::new(AtomicU64::new(0));
    let life = *r.pick(&[0u64, 300, 2000, 8000, 30_000]);
    let end = now_ns() + life * 1000;
    // Receives with all kinds of timeouts, then drops the receiver
    let node2 = node.clone();
    let mut r2 = r.fork();
    let rxt = std::thread::spawn(move || {
        let mut n = 0u64;
        while now_ns() < end {
            let t = *r2.pick(&[0u64, 1, 50_000, 1_000_000]);
            if let Ok(mut g) = rx.recv(Some(std::time::Duration::from_nanos(t))) {
                node2.log_got(ep, &mut g);
                n += 1;
            }
        }
        let b = now_ns();
        must_return("drop of the receiver", 40, || drop(rx));
        node2.log.put(&Ev::C { ep, b, e: now_ns() });
        n
    });
    let sids: Vec<u32> = v["sids"].as_array().unwrap().iter().map(|s| s.as_u64().unwrap() as u32).collect();
    let last_gone = Arc::new(AtomicU64::new(0));
    let ths: Vec<_> = sids
        .iter()
        .enumerate()
        .map(|(k, sid)| {
            let (node, tx, clones, sid, mut r) = (node.clone(), tx.clone(), clones.clone(), *sid, r.fork());
            let last_gone = last_gone.clone();
            std::thread::spawn(move || {
                let mut mine = tx.lock().unwrap().clone().unwrap();
                let mut spare = vec![];
                let mut seq = 0;
                let n = r.range(5, 120);
                let len = *r.pick(&[0u32, 200, 5000]);
                for _ in 0..n {
                    match r.below(6) {
                        0 => {
                            spare.push(mine.clone());
                            clones.fetch_add(1, Ordering::SeqCst);
                        }
                        1 => {
                            if !spare.is_empty() {
                                let i = r.below(spare.len() as u64) as usize;
                                drop(std::mem::replace(&mut mine, spare.swap_remove(i)));
                            }
                        }
                        2 => {
                            // The common handle, behind everyone's lock
                            let c = tx.lock().unwrap().clone();
                            if let Some(c) = c {
                                clones.fetch_add(1, Ordering::SeqCst);
                                mine = c;
                            }
                        }
                        3 if r.pct(10) => spare.clear(),
                        _ => {
                            let op = match r.below(3) {
                                0 => Op::leaf("t"),
                                1 => Op::leaf("o"),
                                _ => Op::T,
                            };
                            node.send_with(&mine, &SendSpec::new(ep, sid, seq, op).len(len));
                            seq += 1;
                        }
                    }
                }
                let s = SendSpec { kind: 1, len: 0, ..SendSpec::new(ep, sid, seq, Op::T) };
                node.send_with(&mine, &s);
                seq += 1;
                if k == 0 {
                    // Gives the common one up while the others may take it
                    let t = tx.lock().unwrap().take();
                    drop(t);
                    *tx.lock().unwrap() = Some(mine.clone());
                }
                spare.clear();
                drop(mine);
                last_gone.store(now_ns(), Ordering::SeqCst);
                (sid, seq)
            })
        })
        .collect();
    let done: Vec<_> = ths.into_iter().map(|t| t.join().unwrap()).collect();
    // The last handle
    let t = tx.lock().unwrap().take();
    must_return("drop of the last sender", 40, || drop(t));
    let n = rxt.join().unwrap();
    node.eps.lock().unwrap().remove(&ep);
    node.log.put(&Ev::K { ep, t: now_ns() });
    json!({"sids": done, "clones": clones.load(Ordering::SeqCst), "received": n, "story": format!("{life} {} {n}", sids.len())})
}
