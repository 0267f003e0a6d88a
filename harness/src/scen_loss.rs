//! C15: the process hosting the controller dies.
use crate::model::*;
use crate::node::*;
use crate::raw;
use crate::util::*;
use crate::world::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

struct E {
    ep: u32,
    h: Host,
    aff: bool,
    open: bool,
}

const CALLS: [&str; 9] = ["sendmsg", "sendmsg", "recvmsg", "recvmsg", "epoll_wait", "accept4", "close", "sendmsg", "recvmsg"];

pub fn loss(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 15]);
    if !crate::shim::loaded() {
        harness_error("needs the shim");
    }
    let pool = strs(&["a", "b", "c"]);
    w.twins_pct = *r.pick(&[0, 0, 40]);
    let n_peers = r.range(3, 5);
    let early = r.pct(15);
    for i in 0..n_peers {
        let mut env = vec![("VH_SLEEP_DIV", "50".to_string())];
        if r.pct(50) {
            env.push(("VH_DELAY", format!("{},{},{}", r.pick(&[5, 20]), r.pick(&[100, 1000]), r.u64() >> 1)));
        }
        if r.pct(25) {
            env.push(("VH_FAULT", format!("{},{}", r.pick(&[2, 20]), r.u64() >> 1)));
        }
        if i == 0 && early {
            // Dies while it becomes the controller
            let call = *r.pick(&["socketpair", "connect", "bind", "listen", "epoll_wait", "accept4", "recvmsg"]);
            env.push(("VH_KILL_AT", format!("{call}:{}:{}", r.range(1, 3), r.pick(&["a", "b"]))));
        }
        w.peer_env(&env);
    }
    if r.pct(40) {
        crate::shim::set_delay(10, 500, seed);
    }
    let main_may = r.pct(50);
    let start = now_ns();
    let mut es: Vec<E> = vec![];
    let mut story: Vec<String> = vec![];
    if early {
        w.peers[0].expect_death();
    }
    let n = r.range(3, 7);
    for i in 0..n {
        // The one that dies early has only the first endpoint
        let hosts: Vec<Host> = w.hosts().into_iter().enumerate().filter(|(k, _)| *k != 1 || !early || i == 0).map(|x| x.1).collect();
        let h = if i < 2 { hosts[1].clone() } else { r.pick(&hosts).clone() };
        let here = matches!(h, Host::Here(_));
        let aff = i < 2 || !here && r.pct(60) || here && main_may;
        let label = sublabel(&mut r, &pool);
        let blocking = r.pct(30);
        let spec = w.spec(&h, &label, |j| {
            j.aff = aff;
            if blocking {
                j.rx_timeout_ms = None;
            }
        });
        let ep = spec.ep;
        if i == 0 && early {
            let t = {
                let h = h.clone();
                std::thread::spawn(move || {
                    let _ = h.call(Cmd::Join(spec));
                })
            };
            sleep_us(r.below(20_000));
            drop(t);
            story.push("the first one dies early".into());
        } else {
            must_return("a join", 60, || h.must_join(spec));
        }
        es.push(E { ep, h, aff, open: true });
    }
    let mut loss: Vec<(u64, u64)> = vec![];
    let mut dead: BTreeSet<i32> = BTreeSet::new();
    let mut settled: BTreeSet<u32> = BTreeSet::new();
    let rounds = r.range(1, 3);
    for round in 0..rounds {
        // Some close their receivers before
        for e in es.iter_mut() {
            if e.open && r.pct(8) {
                let (h, ep) = (e.h.clone(), e.ep);
                if dead.contains(&h.pid()) {
                    continue;
                }
                if h.call(Cmd::CloseRx(ep)).is_ok() {
                    e.open = false;
                    story.push(format!("{ep} closes its receiver"));
                }
            }
        }
        if early && round == 0 {
            let p = w.peers[0].clone();
            let l = raw::listeners_of(&w.ident);
            if !l.iter().any(|i| raw::owners(*i, &[p.pid]).len() == 1) {
                // Too late for it
                let b = now_ns();
                let e = p.kill();
                dead.insert(p.pid);
                for x in es.iter().filter(|x| x.h.pid() == p.pid) {
                    w.evs.push(Ev::C { ep: x.ep, b: b.min(start), e });
                }
                es.retain(|x| x.h.pid() != p.pid);
            }
        }
        let pids: Vec<i32> = w.hosts().iter().map(|h| h.pid()).filter(|p| !dead.contains(p)).collect();
        let t0 = now_ns();
        // Who is it?
        let l = raw::listeners_of(&w.ident);
        let owner = match l.first().map(|i| raw::owners(*i, &pids)) {
            Some(o) if o.len() == 1 => o[0],
            _ if early && round == 0 => w.peers[0].pid,
            o => {
                OUT.violation("reform:controllers", format!("listeners {l:?} are held by {o:?}; {story:?}"));
                return;
            }
        };
        let p = match w.peers.iter().find(|p| p.pid == owner) {
            Some(p) => p.clone(),
            None => break,
        };
        p.expect_death();
        // Somebody must be able to take over
        if !es.iter().any(|e| e.aff && e.open && e.h.pid() != owner && !dead.contains(&e.h.pid())) {
            let h = w.peer_env(&[("VH_SLEEP_DIV", "50".into())]);
            let ep = w.join(&h, &strs(&["a"]), |_| {});
            es.push(E { ep, h, aff: true, open: true });
        }
        let ph = Host::Peer(p.clone());
        let at_call = r.pct(60);
        if at_call {
            let call = *r.pick(&CALLS);
            let k = r.range(1, 150);
            let after = r.pct(50);
            let _ = ph.call(Cmd::Ext("kill_at".into(), json!({"call": call, "n": k, "after": after})));
            story.push(format!("{} will die at {call} {k} {}", p.name, if after { "done" } else { "begun" }));
        }
        let mut bs = vec![];
        for _ in 0..r.range(2, 5) {
            let alive: Vec<&E> = es.iter().filter(|e| !dead.contains(&e.h.pid())).collect();
            let e = *r.pick(&alive);
            let (ep, h) = (e.ep, e.h.clone());
            let mut ops: Vec<Op> = (0..3).map(|_| Op::random(&mut r, &pool, 2)).collect();
            ops.push(Op::T);
            let n = r.range(50, 250) as u32;
            let mut b = w.burst(ep, n, ops);
            b.announce = true;
            b.uni_pct = *r.pick(&[0, 40]);
            crate::traffic::spice(&mut b, &mut r);
            b.gap_us = *r.pick(&[0, 30, 150]);
            b.barrier = false;
            b.clone = r.pct(50);
            bs.push((h, b));
        }
        // Late joins fall into the switch
        let mut joins = vec![];
        for _ in 0..r.below(3) {
            let hosts: Vec<Host> = w.hosts().into_iter().filter(|h| !dead.contains(&h.pid()) && h.pid() != owner).collect();
            let h = r.pick(&hosts).clone();
            let here = matches!(h, Host::Here(_));
            let aff = r.pct(50) && (!here || main_may);
            let label = sublabel(&mut r, &pool);
            let spec = w.spec(&h, &label, |j| j.aff = aff);
            let (ep, d) = (spec.ep, r.below(25_000));
            let h2 = h.clone();
            joins.push((
                E { ep, h, aff, open: true },
                std::thread::spawn(move || {
                    sleep_us(d);
                    must_return("a join while the controller dies", 100, || h2.must_join(spec));
                }),
            ));
        }
        let killer = {
            let p = p.clone();
            let (wait, gentle) = (if at_call { 400_000 } else { r.below(20_000) }, r.pct(20));
            std::thread::spawn(move || {
                let end = now_ns() + wait * 1000;
                while now_ns() < end && p.alive() {
                    sleep_us(200);
                }
                let by_itself = !p.alive();
                if gentle && !by_itself {
                    let _ = p.call(&Cmd::Ext("exit".into(), json!({})));
                }
                (p.kill(), by_itself)
            })
        };
        w.bursts(bs);
        let (t_dead, by_itself) = killer.join().unwrap();
        OUT.count("controller_deaths", 1);
        OUT.count("deaths_at_a_call", by_itself as u64);
        story.push(format!("{} is dead{}", p.name, if by_itself { " (at its call)" } else { "" }));
        for (e, t) in joins {
            while !t.is_finished() {
                w.poll();
                sleep_us(300);
            }
            if t.join().is_err() {
                harness_error("joiner");
            }
            es.push(e);
        }
        dead.insert(owner);
        for e in es.iter().filter(|e| e.h.pid() == owner) {
            w.evs.push(Ev::C { ep: e.ep, b: t0, e: t_dead });
        }
        es.retain(|e| e.h.pid() != owner);
        // Everybody that is left finds everybody else
        reset_overshoot();
        let start = now_ns();
        let mut k = 0;
        'probe: loop {
            k += 1;
            let mut want: BTreeSet<(u32, u32)> = BTreeSet::new();
            let mut sids = vec![];
            for e in &es {
                let sid = w.sid();
                sids.push(sid);
                let (h, ep) = (e.h.clone(), e.ep);
                must_return("a send after the death of the controller", 60, || {
                    if let Some(err) = h.send(SendSpec::new(ep, sid, 0, Op::T)) {
                        OUT.violation("reform:send", format!("{err}; {story:?}"));
                    }
                });
                for f in es.iter().filter(|f| f.open) {
                    want.insert((f.ep, sid));
                }
            }
            let until = now_ns() + 150_000_000 * k.min(10);
            let mut from = w.evs.len().saturating_sub(5000);
            while now_ns() < until {
                w.poll();
                for ev in &w.evs[from..] {
                    if let Ev::R { ep, sid, .. } = ev {
                        want.remove(&(*ep, *sid));
                    }
                }
                from = w.evs.len();
                if want.is_empty() {
                    break 'probe;
                }
                sleep_us(300);
            }
            if now_ns() - start > 30_000_000_000 {
                if worst_overshoot_ms() < 1500 {
                    OUT.violation(
                        "reform:not one bus again",
                        format!("30 s after the death (endpoint, sender) {want:?} of {:?} still miss; {story:?}", es.iter().map(|e| (e.ep, e.aff, e.h.name())).collect::<Vec<_>>()),
                    );
                } else {
                    OUT.inconclusive("machine stalled");
                }
                return;
            }
        }
        let t_ref = now_ns();
        loss.push((t0, t_ref));
        OUT.count("reformed", 1);
        OUT.max("reform_ms", (t_ref - t_dead) / 1_000_000);
        // Nothing may be lost now
        let mut bs = vec![];
        for e in &es {
            let (ep, h) = (e.ep, e.h.clone());
            let mut ops: Vec<Op> = (0..3).map(|_| Op::random(&mut r, &pool, 2)).collect();
            ops.push(Op::T);
            let mut b = w.burst(ep, 20, ops);
            b.uni_pct = 40;
            crate::traffic::spice(&mut b, &mut r);
            bs.push((h, b));
        }
        let barriers = w.bursts(bs);
        settled.extend(barriers.keys());
        let open: BTreeSet<u32> = es.iter().filter(|e| e.open).map(|e| e.ep).collect();
        if !w.settle(&barriers, &open) {
            break;
        }
        OUT.distinct(format!("{story:?}"));
    }
    let h = w.check(&Rules {
        loss,
        settled: Some(settled),
        ..Rules::default()
    });
    let mut late: BTreeMap<u32, u64> = BTreeMap::new();
    for e in es.iter().filter(|e| !e.open) {
        late.insert(e.ep, h.recv.get(&e.ep).map_or(0, |v| v.len() as u64));
    }
    w.check_badclose();
    OUT.distinct(format!("calls:{:x}", crate::shim::trace()));
    OUT.sample(json!({"endpoints": n, "story": story}));
}

/// The receiver is closed while another thread's send waits for a controller to come.
pub fn closed_while_lost(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 151]);
    let p0 = w.peer();
    let e0 = w.join(&p0, &strs(&["c"]), |_| {});
    let mut env = vec![("VH_SLEEP_DIV", "50".to_string())];
    if r.pct(70) {
        env.push(("VH_DELAY", format!("{},{},{}", r.pick(&[30, 80]), r.pick(&[300, 3000]), r.u64() >> 1)));
    }
    let p1 = w.peer_env(&env);
    // It takes over itself, or has to wait for somebody who does
    let heir = r.pct(40);
    let here = w.here();
    let mut closing = 0;
    let mut other = 0;
    let first = r.pct(50);
    let by_hand = r.pct(50);
    for k in 0..2 {
        if (k == 0) == first {
            closing = w.join(&p1, &strs(&["x"]), |j| {
                j.aff = heir;
                if by_hand {
                    j.auto = false;
                } else if r.pct(30) {
                    j.rx_timeout_ms = Some(5);
                }
            });
        } else {
            other = w.join(&here, &strs(&["x", "y"]), |j| j.aff = false);
        }
    }
    let t0 = now_ns();
    p0.peer().expect_death();
    let t_dead = p0.peer().kill();
    w.evs.push(Ev::C { ep: e0, b: t0, e: t_dead });
    let mut ts = vec![];
    for _ in 0..r.range(1, 3) {
        let (h, sid) = (p1.clone(), w.sid());
        ts.push(std::thread::spawn(move || {
            must_return("a send while there is no controller", 90, || h.send(SendSpec::new(closing, sid, 0, Op::T)));
        }));
    }
    let wait = *r.pick(&[0, 500, 5_000, 50_000]);
    sleep_us(if wait == 0 { 0 } else { r.below(wait) });
    must_return("drop of a receiver while a send waits for a controller", 40, || p1.get(Cmd::CloseRx(closing)));
    OUT.count("closed_while_lost", 1);
    sleep_us(r.below(50_000));
    let p2 = w.peer_env(&[("VH_SLEEP_DIV", "50".into())]);
    let third = w.join(&p2, &strs(&["c"]), |j| j.aff = !heir);
    for t in ts {
        while !t.is_finished() {
            w.poll();
            sleep_us(300);
        }
        if t.join().is_err() {
            harness_error("sender");
        }
    }
    // Until everybody is heard
    let es = [(closing, p1.clone()), (other, here.clone()), (third, p2.clone())];
    let start = now_ns();
    reset_overshoot();
    'probe: loop {
        let mut want = BTreeSet::new();
        for (ep, h) in &es {
            let sid = w.sid();
            h.send(SendSpec::new(*ep, sid, 0, Op::T));
            want.extend([(other, sid), (third, sid)]);
        }
        let until = now_ns() + 300_000_000;
        let mut from = w.evs.len();
        while now_ns() < until {
            w.poll();
            for ev in &w.evs[from..] {
                if let Ev::R { ep, sid, .. } = ev {
                    want.remove(&(*ep, *sid));
                }
            }
            from = w.evs.len();
            if want.is_empty() {
                break 'probe;
            }
            sleep_us(300);
        }
        if now_ns() - start > 30_000_000_000 {
            if worst_overshoot_ms() < 1500 {
                OUT.violation("reform:not one bus again", format!("{want:?} still miss, the receiver of {closing} is closed"));
            } else {
                OUT.inconclusive("machine stalled");
            }
            return;
        }
    }
    let t_ref = now_ns();
    // What a closed receiver does not take goes to the others, and nobody waits for it
    let mut bs = vec![];
    for (ep, h) in &es {
        let n = r.range(50, 400) as u32;
        let mut b = w.burst(*ep, n, vec![Op::leaf("x"), Op::leaf("x"), Op::T]);
        b.uni_pct = *r.pick(&[0, 50, 90]);
        b.lens = vec![7, 300, 5000];
        crate::traffic::spice(&mut b, &mut r);
        bs.push((h.clone(), b));
    }
    let barriers = w.bursts(bs);
    w.settle(&barriers, &[other, third].into_iter().collect());
    let settled = barriers.keys().copied().collect();
    w.check(&Rules {
        loss: vec![(t0, t_ref)],
        settled: Some(settled),
        ..Rules::default()
    });
    OUT.distinct(format!("closed {heir} {first} {by_hand} {wait} {:x}", crate::shim::trace()));
}
