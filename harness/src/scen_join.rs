//! C12, C13, C14: who gets onto which bus.
use crate::model::*;
use crate::node::*;
use crate::raw;
use crate::util::*;
use crate::world::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};

fn token(r: &mut Rng) -> String {
    match r.below(9) {
        0 => String::new(),
        1 => "tok".into(),
        2 => " ".into(),
        3 => "é名\u{1f511}".into(),
        4 => "zero\0zero".into(),
        5 => "x".repeat(r.range(1, 300) as usize),
        6 => "y".repeat(r.range(1000, 50_000) as usize),
        _ => format!("{:x}", r.u64()),
    }
}

/// Another token, mostly one that is easily mistaken for it.
fn other(r: &mut Rng, t: &str) -> String {
    loop {
        let o: String = match r.below(10) {
            0 => String::new(),
            1 => format!("{t} "),
            2 => format!(" {t}"),
            3 => format!("{t}\0"),
            4 => t.chars().skip(1).collect(),
            5 => {
                let mut v: Vec<char> = t.chars().collect();
                v.pop();
                v.into_iter().collect()
            }
            6 => t.to_uppercase(),
            7 => format!("{t}{t}"),
            8 => {
                let mut v: Vec<char> = t.chars().collect();
                if let Some(c) = v.last_mut() {
                    *c = if *c == 'z' { 'y' } else { 'z' };
                }
                v.into_iter().collect()
            }
            _ => token(r),
        };
        if o != t {
            return o;
        }
    }
}

pub fn tokens(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 12]);
    if r.pct(40) {
        crate::shim::set_delay(*r.pick(&[5, 20]), *r.pick(&[100, 800]), seed);
    }
    for _ in 0..r.range(1, 3) {
        w.peer();
    }
    let hosts = w.hosts();
    let tok = token(&mut r);
    let labels = strs(&["a", "b", "c"]);
    let mut eps = vec![];
    // Now and then a crowd
    let n_eps = if r.pct(10) { r.range(20, 80) } else { r.range(2, 5) };
    OUT.count("crowded", (n_eps > 5) as u64);
    for i in 0..n_eps {
        let h = r.pick(&hosts).clone();
        let label: Vec<String> = labels.iter().filter(|_| r.pct(50)).cloned().collect();
        let t = tok.clone();
        let ep = w.join(&h, &label, |j| {
            j.token = t;
            j.aff = i == 0 || r.pct(50);
        });
        eps.push((ep, h));
    }
    let stable: BTreeSet<u32> = eps.iter().map(|e| e.0).collect();
    // A listener of somebody refused, by hand
    let wrong = other(&mut r, &tok);
    let (frame, nfds) = raw::record_connect(&w.ident, &labels, &wrong);
    if nfds != 1 {
        harness_error(format!("handshake with {nfds} descriptors"));
    }
    let mut spies = vec![];
    let on = Arc::new(AtomicBool::new(true));
    let good = Arc::new(Mutex::new((w.next_ep + 1000, Vec::<u32>::new())));
    let mut ts = vec![];
    for _ in 0..r.range(1, 4) {
        let (on, good, tok, ident, labels) = (on.clone(), good.clone(), tok.clone(), w.ident.clone(), labels.clone());
        let h = r.pick(&hosts).clone();
        let mut r = r.fork();
        ts.push(std::thread::spawn(move || {
            let mut n = 0;
            while on.load(Ordering::SeqCst) || n < 3 {
                n += 1;
                let ep = {
                    let mut g = good.lock().unwrap();
                    g.0 += 1;
                    g.0
                };
                let mut j = JoinSpec::new(ep, &ident, &[]);
                j.label = labels.iter().filter(|_| r.pct(70)).cloned().collect();
                j.aff = r.pct(50);
                j.timeout_ms = *r.pick(&[Some(30_000), None]);
                let right = r.pct(20);
                j.token = if right { tok.clone() } else { other(&mut r, &tok) };
                let t = j.token.clone();
                j.auto = right;
                let v = must_return("a join", 60, || h.get(Cmd::Join(j)));
                let err = v["err"].as_str();
                if right {
                    if let Some(e) = err {
                        OUT.violation(format!("token:right refused ({e})"), format!("token of {} bytes", t.len()));
                    }
                    good.lock().unwrap().1.push(ep);
                    if r.pct(70) {
                        h.get(Cmd::Drop(ep));
                    }
                    OUT.count("accepted", 1);
                } else {
                    if err != Some("token") {
                        OUT.violation(
                            format!("token:wrong one gave {}", err.unwrap_or("success")),
                            format!("{:.60?} instead of {:.60?} (lengths {} and {})", t, tok, t.len(), tok.len()),
                        );
                        OUT.finish();
                    }
                    OUT.distinct(format!("{:x}", hash(format!("{t}\u{1}{tok}").as_bytes())));
                    OUT.count("refused", 1);
                }
                sleep_us(r.below(2000));
            }
        }));
    }
    for _ in 0..r.range(1, 3) {
        if let Some(s) = raw::Raw::shake(&w.ident, &frame) {
            spies.push(s);
        }
    }
    let mut bs = vec![];
    let mut senders = vec![];
    for _ in 0..r.range(1, 4) {
        let (ep, h) = r.pick(&eps).clone();
        senders.push((ep, h.clone()));
        let mut ops: Vec<Op> = (0..3).map(|_| Op::random(&mut r, &labels, 2)).collect();
        ops.push(Op::T);
        ops.push(Op::leaf("a"));
        let mut b = w.burst(ep, 60, ops);
        b.uni_pct = *r.pick(&[0, 50, 100]);
        b.gap_us = 50;
        b.ttls_ms = vec![0, 0, 60_000];
        crate::traffic::spice(&mut b, &mut r);
        bs.push((h, b));
    }
    let barriers = w.bursts(bs);
    on.store(false, Ordering::SeqCst);
    for t in ts {
        let _ = t.join();
    }
    w.settle(&barriers, &stable);
    // The others that stayed have to catch up too
    w.poll();
    let left = w.stable();
    let bs: Vec<_> = senders.iter().map(|(ep, h)| (h.clone(), w.burst(*ep, 0, vec![]))).collect();
    let again = w.bursts(bs);
    w.settle(&again, &left);
    for s in &spies {
        let mut n = 0;
        loop {
            match raw::recv(s.read.as_raw_fd(), 20) {
                raw::Rx::Packet(..) => n += 1,
                _ => break,
            }
        }
        // The refusal and nothing else
        if n > 1 {
            OUT.violation("token:refused one was sent messages", format!("{n} packets"));
        }
        OUT.count("refused", 1);
    }
    let settled = barriers.keys().copied().collect();
    w.check(&Rules {
        settled: Some(settled),
        ..Rules::default()
    });
    w.check_badclose();
    OUT.sample(json!({"token_length": tok.len(), "endpoints": n_eps, "raw": spies.len()}));
}

// ---------------------------------------------------------------- C13

/// The other versions of the library that were built: "version=path" by ','.
pub fn versions() -> Vec<((u64, u64, u64), String)> {
    std::env::var("VH_VERSIONS")
        .unwrap_or_else(|_| harness_error("VH_VERSIONS"))
        .split(',')
        .map(|s| {
            let (v, p) = s.split_once('=').unwrap_or_else(|| harness_error(s));
            let n: Vec<u64> = v.split('.').map(|x| x.parse().unwrap()).collect();
            ((n[0], n[1], n[2]), p.to_owned())
        })
        .collect()
}

pub fn versions_scen(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 13]);
    let vs = versions();
    let compatible = |a: (u64, u64, u64), b: (u64, u64, u64)| a.0 == b.0 && (a.0 != 0 || a.1 == b.1);
    // The controller is of any version, mostly the current one (the first)
    let c = if r.pct(50) { 0 } else { r.below(vs.len() as u64) as usize };
    let mut hosts: Vec<(usize, Host)> = vec![];
    for (i, (_, exe)) in vs.iter().enumerate() {
        if i == c || r.pct(60) {
            let exe = exe.clone();
            hosts.push((i, w.peer_exe(&exe, &[])));
        }
    }
    // Two more of the controller's version, so that there is a bus to disturb
    for _ in 0..2 {
        let exe = vs[c].1.clone();
        hosts.push((c, w.peer_exe(&exe, &[])));
    }
    let ci = hosts.iter().position(|h| h.0 == c).unwrap();
    let first = hosts[ci].1.clone();
    let labels = strs(&["a", "b"]);
    let e0 = w.join(&first, &labels, |_| {});
    let mut eps = vec![(e0, first.clone())];
    for (i, h) in &hosts {
        if *i == c && r.pct(80) {
            let l = sublabel(&mut r, &labels);
            let ep = w.join(h, &l, |j| j.aff = false);
            eps.push((ep, h.clone()));
        }
    }
    let stable: BTreeSet<u32> = eps.iter().map(|e| e.0).collect();
    let mut compat_eps: Vec<(u32, Host)> = vec![];
    let mut bs = vec![];
    for _ in 0..r.range(1, 3) {
        let (ep, h) = r.pick(&eps).clone();
        let mut b = w.burst(ep, 150, vec![Op::T, Op::leaf("a"), Op::leaf("b")]);
        b.uni_pct = *r.pick(&[0, 50]);
        b.gap_us = 300;
        bs.push((h, b));
    }
    let mut specs = vec![];
    for _ in 0..r.range(2, 8) {
        let (i, h) = r.pick(&hosts).clone();
        let aff = r.pct(50);
        let t = *r.pick(&[Some(60_000), None]);
        let l = sublabel(&mut r, &labels);
        // A wrong token changes nothing: the version is what counts first
        let tok = if r.pct(15) { "wrong" } else { "tok" };
        let ok = compatible(vs[i].0, vs[c].0);
        let s = w.spec(&h, &l, |j| {
            j.aff = aff;
            j.timeout_ms = t;
            if !ok {
                j.token = tok.to_owned();
            }
        });
        specs.push((i, h, s));
    }
    let joiner = {
        let cv = vs[c].0;
        let vs = vs.clone();
        std::thread::spawn(move || {
            let mut ok = vec![];
            for (i, h, s) in specs {
                let ep = s.ep;
                reset_overshoot();
                let t = now_ns();
                let v = must_return("a join between versions", 60, || h.get(Cmd::Join(s)));
                let took = (now_ns() - t) / 1_000_000;
                let err = v["err"].as_str();
                let iv = vs[i].0;
                let what = format!("{iv:?} to a controller of {cv:?}: {}", err.unwrap_or("joined"));
                OUT.distinct(format!("{iv:?}>{cv:?}"));
                OUT.count("version_joins", 1);
                if compatible(iv, cv) {
                    if err.is_some() {
                        OUT.violation("version:compatible one refused", what);
                    }
                    ok.push((ep, h));
                } else {
                    OUT.count("refused", 1);
                    match err {
                        Some(e) if e == format!("version {}.{}.{}", cv.0, cv.1, cv.2) => {}
                        Some(e) if e.starts_with("version") => {
                            OUT.violation("version:reported", what.clone());
                        }
                        _ => {
                            OUT.violation("version:incompatible one not refused", what.clone());
                            OUT.finish();
                        }
                    }
                    if took > 3000 && worst_overshoot_ms() < 500 {
                        OUT.violation("version:refusal takes long", format!("{what} after {took} ms"));
                    }
                }
            }
            ok
        })
    };
    let mut barriers = w.bursts(bs);
    compat_eps.extend(joiner.join().unwrap());
    // Those of compatible versions exchange messages like any other
    let mut all = stable.clone();
    all.extend(compat_eps.iter().map(|e| e.0));
    let mut everybody = eps.clone();
    everybody.extend(compat_eps.iter().cloned());
    let mut bs = vec![];
    for (ep, h) in &everybody {
        let n = r.range(3, 10) as u32;
        let b = w.burst(*ep, n, vec![Op::T, Op::leaf("a")]);
        bs.push((h.clone(), b));
    }
    let more = w.bursts(bs);
    w.settle(&more, &all);
    // The earlier ones only concern those that were there
    w.settle(&barriers, &stable);
    barriers.extend(more);
    let settled = barriers.keys().copied().collect();
    w.check(&Rules {
        settled: Some(settled),
        ..Rules::default()
    });
    OUT.sample(json!({"controller": format!("{:?}", vs[c].0), "compatible_joins": compat_eps.len()}));
}

// ---------------------------------------------------------------- C14

fn idents(r: &mut Rng, k: u64) -> Vec<String> {
    let base = format!("vh.{}.{:x}", std::process::id(), r.u64() & 0xffff_ffff);
    let mut v = vec![base.clone()];
    while (v.len() as u64) < k {
        let from = r.pick(&v).clone();
        let n = match r.below(10) {
            0 => format!("{from}x"),
            1 => format!("{from} "),
            2 => format!("{from}."),
            3 => format!("{from}é"),
            4 => {
                let mut s = from.clone();
                s.pop();
                s + "_"
            }
            5 => {
                let l = r.range(90, 106) as usize;
                let mut s = from.clone();
                while s.len() < l {
                    s.push('p');
                }
                s
            }
            6 => format!("{from}/"),
            7 => from.replace("vh.", "VH."),
            8 => format!("{from}-{}", r.below(9)),
            _ => {
                let mut s = from.clone();
                while s.len() < 105 {
                    s.push('q');
                }
                s.push((b'a' + r.below(26) as u8) as char);
                s
            }
        };
        if n.len() <= 106 && n.is_char_boundary(n.len()) && !v.contains(&n) {
            v.push(n);
        }
    }
    v
}

pub fn race(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 14]);
    let div = *r.pick(&["20", "50", "100"]);
    for _ in 0..r.range(2, 5) {
        let mut env = vec![("VH_SLEEP_DIV", div.to_string())];
        if r.pct(60) {
            env.push(("VH_DELAY", format!("{},{},{}", r.pick(&[10, 40]), r.pick(&[100, 1000, 5000]), r.u64() >> 1)));
        }
        if r.pct(25) {
            env.push(("VH_FAULT", format!("{},{}", r.pick(&[5, 50]), r.u64() >> 1)));
        }
        w.peer_env(&env);
    }
    if r.pct(50) {
        crate::shim::set_delay(20, 500, seed);
    }
    let k = r.range(1, 4);
    let ids = idents(&mut r, k);
    // Endpoints per process and identifier; in this process only ones with affinity, others would
    // wait for two whole seconds
    let mut bus = BTreeMap::new();
    let mut specs = vec![];
    let peers: Vec<Host> = w.peers.iter().cloned().map(Host::Peer).collect();
    let lonely: Vec<bool> = ids.iter().map(|_| k > 1 && r.pct(15)).collect();
    for (bi, id) in ids.iter().enumerate() {
        let n = r.range(2, 7);
        let sure = r.below(n);
        // A process without affinity for this identifier
        let follower = r.below(peers.len() as u64) as usize;
        for i in 0..n {
            let (h, here) = if r.pct(20) {
                (w.here(), true)
            } else {
                (r.pick(&peers).clone(), false)
            };
            let follows = h.pid() == peers[follower].pid();
            let mut aff = !follows && (i == sure || here || r.pct(60));
            let mut h = h;
            if i == sure && follows {
                h = w.here();
                aff = true;
            }
            if lonely[bi] {
                if here {
                    continue;
                }
                aff = false;
            }
            let timeout = if lonely[bi] { Some(r.range(0, 40)) } else { Some(60_000) };
            let spec = w.spec(&h, &[], |j| {
                j.ident = id.clone();
                j.aff = aff;
                j.timeout_ms = timeout;
            });
            bus.insert(spec.ep, bi as u32);
            specs.push((bi, h, spec));
        }
    }
    // All at once, or spread a little
    let spread = *r.pick(&[0u64, 0, 200, 3000]);
    let start = now_ns() + 30_000_000;
    let mut ts = vec![];
    r.shuffle(&mut specs);
    for (bi, h, mut s) in specs {
        s.at = start + r.below(spread + 1) * 1000;
        let lonely = lonely[bi];
        ts.push(std::thread::spawn(move || {
            let (ep, aff) = (s.ep, s.aff);
            let h2 = h.clone();
            let v = must_return("a join in a race", 100, move || h2.get(Cmd::Join(s)));
            let err = v["err"].as_str();
            if lonely {
                if err != Some("timeout") {
                    OUT.violation("ident:join without affinity and controller", format!("gave {}", err.unwrap_or("success")));
                }
                OUT.count("waited_in_vain", 1);
            } else if let Some(e) = err {
                OUT.violation(format!("join:{}", e.split(' ').next().unwrap_or("")), format!("endpoint {ep} failed to join: {e}"));
            }
            (bi, ep, h, aff)
        }));
    }
    let joined: Vec<(usize, u32, Host, bool)> = ts.into_iter().map(|t| t.join().unwrap()).collect();
    if OUT.violated() {
        return;
    }
    let pids: Vec<i32> = w.hosts().iter().map(|h| h.pid()).collect();
    let mut owned: BTreeMap<i32, usize> = BTreeMap::new();
    for (bi, id) in ids.iter().enumerate() {
        let l = raw::listeners_of(id);
        if l.len() != !lonely[bi] as usize {
            OUT.violation("ident:controllers", format!("{} listeners for one identifier ({id:?}), lonely {}", l.len(), lonely[bi]));
            continue;
        }
        if lonely[bi] {
            continue;
        }
        let o = raw::owners(l[0], &pids);
        if o.len() != 1 {
            OUT.violation("ident:controllers", format!("the listener is held by {o:?}"));
            continue;
        }
        *owned.entry(o[0]).or_default() += 1;
        let may = joined.iter().any(|(b, _, h, aff)| *b == bi && *aff && h.pid() == o[0]);
        if !may {
            OUT.violation("ident:controller without affinity", format!("in a process where none of {id:?} has it"));
        }
        OUT.count("races", 1);
    }
    for h in w.hosts() {
        let c = h.get(Cmd::Census)["controllers"].as_u64().unwrap();
        let o = owned.get(&h.pid()).copied().unwrap_or(0) as u64;
        if c != o {
            OUT.violation("ident:controllers", format!("{c} controller threads, but {o} listeners in {}", h.name()));
        }
    }
    // Everybody to everybody, and to nobody else
    let mut bs = vec![];
    for (bi, ep, h, _) in &joined {
        if !lonely[*bi] {
            let mut b = w.burst(*ep, 3, vec![Op::T]);
            b.uni_pct = 20;
            bs.push((h.clone(), b));
        }
    }
    let by_sid: BTreeMap<u32, u32> = bs.iter().map(|(_, b)| (b.sid, bus[&b.ep])).collect();
    let barriers = w.bursts(bs);
    for bi in 0..ids.len() {
        if lonely[bi] {
            continue;
        }
        let mine: BTreeMap<u32, u32> = barriers.iter().filter(|(s, _)| by_sid[s] == bi as u32).map(|(a, b)| (*a, *b)).collect();
        let eps: BTreeSet<u32> = joined.iter().filter(|j| j.0 == bi).map(|j| j.1).collect();
        if !w.settle(&mine, &eps) {
            break;
        }
    }
    w.check(&Rules {
        bus,
        ..Rules::default()
    });
    w.check_badclose();
    let winners: Vec<String> = joined.iter().map(|j| format!("{}{}", j.0, j.3)).collect();
    OUT.distinct(format!("{winners:?}{owned:?}{:x}", crate::shim::trace()));
    OUT.sample(json!({"identifiers": ids, "endpoints": joined.len(), "nobody may": lonely}));
}

/// Identifiers that are too long for the kernel's socket addresses.
pub fn long_idents(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 14, 2]);
    let mut base = w.ident.clone();
    while base.len() < 106 {
        base.push('l');
    }
    let h = w.here();
    let p = w.peer();
    let a = format!("{base}a");
    let b = format!("{base}b");
    let (i, j) = (a.clone(), b.clone());
    let e0 = w.join(&h, &[], |s| s.ident = i);
    let e1 = w.join(&p, &[], |s| s.ident = j);
    let b0 = w.burst(e0, r.range(1, 5) as u32, vec![Op::T]);
    w.bursts(vec![(h.clone(), b0)]);
    let end = now_ns() + 300_000_000;
    let mut merged = false;
    while now_ns() < end && !merged {
        w.poll();
        merged = w.evs.iter().any(|e| matches!(e, Ev::R{ep, ..} if *ep == e1));
        sleep_us(500);
    }
    if merged {
        OUT.violation(
            "ident:longer than 106 bytes",
            "endpoints of two identifiers that differ only after 106 bytes received each other's messages",
        );
    }
    OUT.count("long", 1);
}

/// The controller dies and leaves nobody who may become one.
pub fn no_heir(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 14, 3]);
    let env = [("VH_SLEEP_DIV", "50".to_string())];
    let ctl = w.peer();
    let first = w.join(&ctl, &strs(&["a"]), |_| {});
    let mut at: Vec<(u32, Host)> = vec![];
    let peers: Vec<Host> = (0..r.range(1, 3)).map(|_| w.peer_env(&env)).collect();
    for _ in 0..r.range(1, 5) {
        let h = r.pick(&peers).clone();
        let wait = *r.pick(&[None, Some(20), Some(100)]);
        let ep = w.join(&h, &strs(&["a"]), |j| {
            j.aff = false;
            j.rx_timeout_ms = wait;
        });
        at.push((ep, h));
    }
    let before = now_ns();
    ctl.peer().kill();
    w.evs.push(Ev::K { ep: first, t: before });
    // They receive, and some of them send as well
    let mut pending = vec![];
    for (ep, h) in &at {
        if r.pct(50) {
            let mut b = w.burst(*ep, 2, vec![Op::leaf("a")]);
            b.barrier = false;
            pending.push(h.peer().start(&Cmd::Burst(b)));
        }
    }
    // ... and new ones try
    if r.pct(50) {
        let h = r.pick(&peers).clone();
        let spec = w.spec(&h, &strs(&["a"]), |j| {
            j.aff = false;
            j.timeout_ms = Some(200_000);
        });
        at.push((spec.ep, h.clone()));
        pending.push(h.peer().start(&Cmd::Join(spec)));
    }
    let until = now_ns() + r.range(200, 500) * 1_000_000;
    let mut looks = 0;
    while now_ns() < until {
        let l = raw::listeners_of(&w.ident);
        if !l.is_empty() {
            let pids: Vec<i32> = at.iter().map(|x| x.1.pid()).collect();
            OUT.violation(
                "ident:controller without affinity",
                format!("after the controller's death, {:?} listens, where no endpoint may become the controller", raw::owners(l[0], &pids)),
            );
            return;
        }
        looks += 1;
        sleep_ms(5);
    }
    OUT.count("looks", looks);
    OUT.count("orphaned", at.len() as u64);
    // One that may
    let h = w.peer_env(&env);
    let ep = w.join(&h, &strs(&["a"]), |_| {});
    at.push((ep, h));
    // Everything that was interrupted comes to its end
    let n = pending.len();
    must_return("what waited for a controller", 60, move || {
        for p in pending.into_iter().flatten() {
            let _ = p.recv();
        }
    });
    OUT.count("interrupted", n as u64);
    let start = now_ns();
    // All of them find the new one
    let reached = loop {
        let mut b = w.burst(ep, 0, vec![Op::leaf("a")]);
        b.barrier = true;
        let sid = b.sid;
        let h = at.last().unwrap().1.clone();
        w.bursts(vec![(h, b)]);
        sleep_ms(60);
        w.poll();
        let got: BTreeSet<u32> = w
            .evs
            .iter()
            .filter_map(|e| match e {
                Ev::R { ep, sid: s, .. } if *s == sid => Some(*ep),
                _ => None,
            })
            .collect();
        if at.iter().all(|x| got.contains(&x.0)) {
            break true;
        }
        if now_ns() - start > 20_000_000_000 {
            break false;
        }
    };
    if !reached {
        OUT.violation("ident:not found again", "an endpoint did not reach the controller that took over within 20 s".to_owned());
        return;
    }
    let l = raw::listeners_of(&w.ident);
    let pid = at.last().unwrap().1.pid();
    if l.len() != 1 || raw::owners(l[0], &[pid]).len() != 1 {
        OUT.violation("ident:controllers", format!("{l:?} listeners after the takeover"));
    }
    OUT.count("taken_over", 1);
    OUT.distinct(format!("{}:{n}:{looks}", at.len()));
}
