//! C22: messages that the transport cannot carry, amid ones that it can.
use crate::model::*;
use crate::node::*;
use crate::util::*;
use crate::world::*;
use serde_json::json;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

pub fn untransportable(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 22]);
    for _ in 0..r.range(1, 2) {
        let env = if r.pct(30) {
            vec![("VH_DELAY", format!("5,300,{}", r.u64() >> 1))]
        } else {
            vec![]
        };
        w.peer_env(&env);
    }
    let mut hosts = w.hosts();
    r.shuffle(&mut hosts);
    let mut eps = vec![];
    for (i, h) in hosts.iter().chain(hosts[..1].iter()).enumerate() {
        let blocking = r.pct(20);
        let ep = w.join(h, &strs(&["v"]), |j| {
            j.aff = i == 0;
            if blocking {
                j.rx_timeout_ms = None;
            }
        });
        eps.push((ep, h.clone()));
    }
    let mut stable: BTreeSet<u32> = eps.iter().map(|e| e.0).collect();
    let mut settled = BTreeSet::new();
    let mut ignore = BTreeSet::new();
    let mut next_obj = 1u32;
    for round in 0..r.range(2, 4) {
        let mut bs = vec![];
        for (ep, h) in &eps {
            if r.pct(80) {
                let mut b = w.burst(*ep, r.range(20, 120) as u32, vec![Op::T, Op::leaf("v"), Op::leaf(&format!("@{}", r.pick(&eps).0))]);
                b.uni_pct = *r.pick(&[0, 40]);
                b.lens = r.pick(&[vec![0, 100], vec![20_000, 100_000]]).clone();
                b.gap_us = *r.pick(&[0, 100, 1000]);
                bs.push((h.clone(), b));
            }
        }
        // The monsters, each from an endpoint of its own choice
        let mut ths = vec![];
        let done = Arc::new(AtomicBool::new(false));
        for k in 0..r.range(1, 3) {
            let (ep, h) = if k == 0 && round == 0 { eps[0].clone() } else { r.pick(&eps).clone() };
            let sid = w.sid();
            ignore.insert(sid);
            let mut list = vec![];
            for q in 0..r.range(1, 5) {
                let op = match r.below(6) {
                    0 => Op::leaf("v"),
                    1 => Op::T,
                    2 => Op::leaf(&format!("@{ep}")),
                    3 => Op::leaf(&format!("@{}", r.pick(&eps).0)),
                    4 => Op::F,
                    _ => Op::leaf("late"),
                };
                let mut s = SendSpec::new(ep, sid, q as u32, op);
                s.uni = r.pct(40);
                if r.pct(40) {
                    s.ttl_ns = *r.pick(&[1_000_000, 60_000_000_000]);
                }
                let mut n = 0;
                let kind = r.below(5);
                match kind {
                    0 | 1 => {
                        s.len = *r.pick(&[131_000, 131_040, 131_072, 131_100, 140_000, 212_992, 262_144, 300_000, 1 << 20, 5_000_000, 16_000_000]);
                        s.len += r.below(40) as u32;
                    }
                    2 => n = *r.pick(&[254u32, 255, 256, 300, 506, 1024]),
                    3 => {
                        let depth = *r.pick(&[513u64, 600, 1500]);
                        for _ in 0..depth {
                            s.op = Op::N(Box::new(s.op));
                        }
                    }
                    _ => {
                        // A selector without end
                        for i in 0..200 {
                            s.op = Op::O(Box::new(s.op), Box::new(Op::leaf(&format!("{i}{}", "x".repeat(900)))));
                        }
                    }
                }
                // At or over 253 handles, some of them regions
                let regions = if n > 0 && r.pct(30) { r.range(1, 5) as u32 } else { 0 };
                OUT.distinct(format!("{kind} {} {n} {} {} {}", s.len, s.uni, s.ttl_ns, h.pid() == eps[0].1.pid()));
                list.push((s, n, regions));
            }
            let base = next_obj;
            next_obj += 2000 * list.len() as u32;
            let gap = *r.pick(&[0, 500, 5000]);
            ths.push(std::thread::spawn(move || {
                for (i, (mut s, n, regions)) in list.into_iter().enumerate() {
                    let id = base + 2000 * i as u32;
                    if n > 0 {
                        h.get(Cmd::Ext("obj.make".into(), json!({"id": id, "kind": "pipe"})));
                        for j in 1..n - regions {
                            h.get(Cmd::Ext("obj.dup".into(), json!({"id": id, "to": id + j})));
                        }
                        for j in n - regions..n {
                            h.get(Cmd::Ext("mr.new".into(), json!({"id": id + j, "size": 10})));
                        }
                        s.objects = (id..id + n - regions).collect();
                        s.regions = (id + n - regions..id + n).collect();
                    }
                    let waits = s.ttl_ns > 0;
                    let what = format!("send of {} bytes and {n} attachments", s.len);
                    let err = must_return(&what, 30, || h.send(s));
                    OUT.count("monsters", 1);
                    OUT.count(if err.is_some() { "refused" } else { "swallowed" }, 1);
                    sleep_us(gap);
                    if n > 0 && !waits {
                        // None of it is held by anyone who did not receive it
                        let start = now_ns();
                        reset_overshoot();
                        loop {
                            let open = h.get(Cmd::Ext("obj.open".into(), json!({"ids": [id]})));
                            if open.as_array().unwrap().is_empty() {
                                break;
                            }
                            if now_ns() - start > 8_000_000_000 {
                                if worst_overshoot_ms() < 1500 {
                                    OUT.violation("big:attachments leaked", format!("{n} attachments of a message that could not be sent are still open ({err:?})"));
                                }
                                break;
                            }
                            sleep_ms(5);
                        }
                        OUT.count("attachments_gone", 1);
                    }
                }
            }));
        }
        let barriers = w.bursts(bs);
        for t in ths {
            if t.join().is_err() {
                harness_error("monster thread");
            }
        }
        done.store(true, Ordering::SeqCst);
        if !w.settle(&barriers, &stable) {
            break;
        }
        settled.extend(barriers.keys().copied());
        // Someone for whom a monster may be waiting
        if r.pct(60) {
            let h = r.pick(&hosts).clone();
            let e = w.join(&h, &strs(&["late"]), |j| j.aff = false);
            eps.push((e, h));
            stable.insert(e);
        }
        // Everyone can still send
        let bs = eps
            .clone()
            .into_iter()
            .map(|(e, h)| {
                let mut b = w.burst(e, 3, vec![Op::T]);
                b.lens = vec![50, 1000];
                (h, b)
            })
            .collect();
        let barriers = w.bursts(bs);
        if !w.settle(&barriers, &stable) {
            break;
        }
        settled.extend(barriers.keys().copied());
    }
    w.check(&Rules {
        settled: Some(settled),
        ignore,
        ..Rules::default()
    });
    w.check_badclose();
    OUT.sample(json!({"seed": seed, "controller": eps[0].1.name()}));
}
