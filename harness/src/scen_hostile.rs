//! C17: bytes and descriptors of strangers on the bus socket.
use crate::model::*;
use crate::node::*;
use crate::raw::{self, Raw, Rx};
use crate::util::*;
use crate::world::*;
use serde_json::json;
use std::collections::BTreeSet;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

const WORDS: [u32; 14] = [
    0, 1, 2, 3, 4, 7, 255, 256, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffc, 0xffff_ffff,
];

#[derive(Clone)]
struct Seed {
    data: Vec<u8>,
    nfds: usize,
    what: &'static str,
}

fn mk(fd: i32) -> Option<OwnedFd> {
    if fd < 0 {
        None
    } else {
        Some(unsafe { OwnedFd::from_raw_fd(fd) })
    }
}

/// Some descriptor to attach, what is kept of it lives until the attack is over.
fn some_fd(r: &mut Rng, keep: &mut Vec<OwnedFd>) -> Option<OwnedFd> {
    unsafe {
        let mut p = [0; 2];
        match r.below(12) {
            0 => mk(libc::memfd_create(c"x".as_ptr(), libc::MFD_CLOEXEC)),
            1 | 2 => {
                let f = mk(libc::memfd_create(c"x".as_ptr(), libc::MFD_CLOEXEC))?;
                libc::ftruncate(f.as_raw_fd(), *r.pick(&[1, 4, 7, 8, 9, 4095, 4096, 4097, 1 << 20]));
                Some(f)
            }
            3 => {
                // Neither writable nor to be mapped so
                let f = mk(libc::memfd_create(c"x".as_ptr(), libc::MFD_CLOEXEC | libc::MFD_ALLOW_SEALING))?;
                libc::ftruncate(f.as_raw_fd(), 8192);
                libc::fcntl(f.as_raw_fd(), libc::F_ADD_SEALS, libc::F_SEAL_WRITE | libc::F_SEAL_SHRINK | libc::F_SEAL_GROW);
                Some(f)
            }
            4 => {
                libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC);
                let a = mk(p[0])?;
                keep.push(mk(p[1])?);
                Some(a)
            }
            5 => {
                libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC);
                drop(mk(p[0]));
                mk(p[1])
            }
            6 => {
                libc::socketpair(libc::AF_UNIX, *r.pick(&[libc::SOCK_STREAM, libc::SOCK_DGRAM, libc::SOCK_SEQPACKET]) | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr());
                let a = mk(p[0])?;
                keep.push(mk(p[1])?);
                Some(a)
            }
            7 => mk(libc::socket(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0)),
            8 => mk(libc::open(c"/dev/null".as_ptr(), libc::O_RDWR | libc::O_CLOEXEC)),
            9 => mk(libc::open(c"/".as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC)),
            10 => mk(libc::epoll_create1(libc::EPOLL_CLOEXEC)),
            _ => mk(libc::eventfd(0, libc::EFD_CLOEXEC)),
        }
    }
}

fn word(d: &[u8], at: usize) -> Option<usize> {
    Some(u32::from_ne_bytes(d.get(at..at + 4)?.try_into().ok()?) as usize)
}

fn put(d: &mut [u8], at: usize, v: u32) {
    if let Some(s) = d.get_mut(at..at + 4) {
        s.copy_from_slice(&v.to_ne_bytes());
    }
}

/// Today's layout; should it be another one, the mutations are only less aimed.
fn parts(d: &[u8]) -> Option<(usize, usize, usize)> {
    let s = word(d, 4)?;
    let p_at = 8usize.checked_add(s.checked_add(3)? & !3)?;
    word(d, p_at)?;
    Some((s, p_at, word(d, p_at)?))
}

fn mutate(r: &mut Rng, seeds: &[Seed], frame: &Seed) -> (Vec<u8>, String) {
    let mut d = frame.data.clone();
    let mut story = frame.what.to_string();
    for _ in 0..r.range(1, 3) {
        let n = d.len().max(1) as u64;
        let p = parts(&d);
        match r.below(14) {
            0 => {
                for _ in 0..r.range(1, 8) {
                    let i = r.below(n) as usize;
                    if let Some(b) = d.get_mut(i) {
                        *b ^= 1 << r.below(8);
                    }
                }
                story += " flip";
            }
            1 => {
                let i = (r.below(n) as usize / 4) * 4;
                put(&mut d, i, *r.pick(&WORDS));
                story += " word";
            }
            2 => {
                d.truncate(r.below(n) as usize);
                story += " cut";
            }
            3 => {
                d.truncate(r.below(24) as usize);
                story += " stub";
            }
            4 => {
                let k = *r.pick(&[1, 2, 3, 4, 64, 5000, 60_000]);
                let f = r.fill(k);
                d.extend(f);
                story += " extend";
            }
            5 => {
                // A lie about the selector
                if let Some((s, _, _)) = p {
                    let x = *r.pick(&WORDS);
                    let (s, l) = (s as u32, d.len() as u32);
                    let v = *r.pick(&[s.wrapping_add(1), s.wrapping_sub(1), s.wrapping_add(4), l, l.wrapping_sub(8), l.wrapping_sub(7), 0, x]);
                    put(&mut d, 4, v);
                }
                story += " selector size";
            }
            6 => {
                if let Some((_, at, l)) = p {
                    let x = *r.pick(&WORDS);
                    let l = l as u32;
                    let v = *r.pick(&[l.wrapping_add(1), l.wrapping_add(4), l.wrapping_sub(1), d.len() as u32, x]);
                    put(&mut d, at, v);
                }
                story += " payload size";
            }
            7 => {
                // How many regions
                if let Some((s, _, _)) = p {
                    let back = r.range(1, s.clamp(1, 14) as u64) as usize;
                    if let Some(b) = d.get_mut(8 + s - back.min(s)) {
                        *b = *r.pick(&[0, 1, 2, 5, 250, 251, 252, 253, 255]);
                    }
                }
                story += " tail of the selector";
            }
            8 => {
                // A very deep or long expression
                if let Some((s, at, _)) = p {
                    let k = *r.pick(&[1, 100, 600, 5_000, 50_000, 100_000]);
                    let b = d.get(8 + r.below(s.max(1).min(4) as u64) as usize).copied().unwrap_or(5);
                    let b = if r.pct(60) { r.below(6) as u8 } else { b };
                    let sel: Vec<u8> = std::iter::repeat(b).take(k).chain(d.get(8..8 + s).unwrap_or(&[]).iter().copied()).collect();
                    let rest = d.get(at..).unwrap_or(&[]).to_vec();
                    d.truncate(8);
                    put(&mut d, 4, sel.len() as u32);
                    d.extend(&sel);
                    while d.len() % 4 != 0 {
                        d.push(0);
                    }
                    d.extend(rest);
                }
                story += " nest";
            }
            9 => {
                // The selector of another frame
                let o = r.pick(seeds);
                if let (Some((s, at, _)), Some((so, _, _))) = (p, parts(&o.data)) {
                    let _ = s;
                    let rest = d.get(at..).unwrap_or(&[]).to_vec();
                    let mut n = d.get(..4).unwrap_or(&[]).to_vec();
                    n.extend((so as u32).to_ne_bytes());
                    n.extend(o.data.get(8..8 + so).unwrap_or(&[]));
                    while n.len() % 4 != 0 {
                        n.push(0);
                    }
                    n.extend(rest);
                    d = n;
                }
                story += " splice";
            }
            10 => {
                // Another payload
                if let Some((_, at, _)) = p {
                    d.truncate(at);
                    let k = *r.pick(&[0, 1, 3, 4, 17, 300, 4000]);
                    d.extend((k as u32).to_ne_bytes());
                    let mut f = r.fill(k);
                    if r.pct(50) {
                        for b in f.iter_mut() {
                            *b = *r.pick(&[0, 1, 250, 251, 252, 253, 254, 255]);
                        }
                    }
                    d.extend(f);
                    while d.len() % 4 != 0 {
                        d.push(0);
                    }
                }
                story += " payload";
            }
            11 => {
                // Lengths inside
                let i = r.below(n) as usize;
                let all = [
                    vec![253, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f],
                    vec![253, 0, 0, 0, 0x40, 0, 0, 0, 0],
                    vec![252, 0xff, 0xff, 0xff, 0x7f],
                    vec![252, 0, 0, 0, 0x3f],
                    vec![251, 0xff, 0xff],
                ];
                let l = r.pick(&all);
                for (k, b) in l.iter().enumerate() {
                    if let Some(x) = d.get_mut(i + k) {
                        *x = *b;
                    }
                }
                story += " length";
            }
            12 => {
                let v = r.fill(4);
                let i = r.below(4) as usize;
                if let Some(b) = d.get_mut(i) {
                    *b = v[0];
                }
                story += " version";
            }
            _ => {
                let k = *r.pick(&[0, 1, 3, 4, 11, 12, 13, 64, 3000, 65_536, 130_000]);
                d = r.fill(k);
                if r.pct(50) && d.len() > 4 {
                    let h = frame.data.get(..4).unwrap_or(&[0; 4]).to_vec();
                    d[..4].copy_from_slice(&h);
                }
                story = "noise".into();
            }
        }
    }
    (d, story)
}

struct Attack {
    ident: String,
    seeds: Vec<Seed>,
    valid: Vec<u8>,
    refused: Vec<u8>,
}

fn attack(a: &Attack, mut r: Rng, on: &AtomicBool) {
    let mut conns: Vec<OwnedFd> = vec![];
    let mut keep: Vec<OwnedFd> = vec![];
    while on.load(Ordering::SeqCst) {
        if conns.is_empty() || r.pct(20) {
            match raw::connect(&a.ident) {
                Some(c) => {
                    conns.push(c);
                    OUT.count("attack_connections", 1);
                }
                None => {
                    OUT.violation("hostile:cannot connect", "the bus does not accept connections any more");
                    return;
                }
            }
        }
        match r.below(24) {
            // Leave, at some moment
            0 | 1 => {
                let i = r.below(conns.len() as u64) as usize;
                drop(conns.swap_remove(i));
                continue;
            }
            2 => {
                let i = r.below(conns.len() as u64) as usize;
                unsafe { libc::shutdown(conns[i].as_raw_fd(), *r.pick(&[libc::SHUT_WR, libc::SHUT_RD, libc::SHUT_RDWR])) };
                continue;
            }
            // A handshake that would be valid, but the reader is gone already, or goes before long
            3 => {
                if let Some(s) = Raw::shake(&a.ident, &a.valid) {
                    if r.pct(50) {
                        drop(s.read);
                        sleep_us(r.below(1000));
                    } else {
                        let n = r.below(5);
                        for _ in 0..n {
                            if let Rx::Eof | Rx::Silence = raw::recv(s.read.as_raw_fd(), 5) {
                                break;
                            }
                        }
                    }
                    OUT.count("attack_valid_handshakes", 1);
                }
                continue;
            }
            // One that is refused, to somebody who does not listen
            4 => {
                let (read, write) = raw::pair();
                let junk = [0u8; 512];
                while raw::send(write.as_raw_fd(), &junk, &[], libc::MSG_DONTWAIT).is_ok() {}
                let f = if r.pct(50) { &a.refused } else { &a.valid };
                let i = r.below(conns.len() as u64) as usize;
                let _ = raw::send(conns[i].as_raw_fd(), f, &[write.as_raw_fd()], libc::MSG_DONTWAIT);
                keep.push(read);
                OUT.count("attack_full_handshakes", 1);
            }
            // Handshakes whose descriptor is none
            5 => {
                let f = if r.pct(50) { &a.refused } else { &a.valid };
                let i = r.below(conns.len() as u64) as usize;
                let fds: Vec<OwnedFd> = (0..r.below(3)).filter_map(|_| some_fd(&mut r, &mut vec![])).collect();
                let raws: Vec<i32> = fds.iter().map(|f| f.as_raw_fd()).collect();
                let _ = raw::send(conns[i].as_raw_fd(), f, &raws, libc::MSG_DONTWAIT);
                OUT.count("attack_odd_handshakes", 1);
            }
            _ => {
                let s = r.pick(&a.seeds).clone();
                let (d, story) = mutate(&mut r, &a.seeds, &s);
                let k = match r.below(10) {
                    0 => 0,
                    1 => 1,
                    2 => s.nfds + 1,
                    3 => s.nfds.saturating_sub(1),
                    4 => *r.pick(&[2, 3, 100, 252, 253]),
                    _ => s.nfds,
                };
                let fds: Vec<OwnedFd> = if k > 5 {
                    let f = some_fd(&mut r, &mut keep);
                    f.into_iter().flat_map(|f| (0..k).filter_map(move |_| f.try_clone().ok())).collect()
                } else {
                    (0..k).filter_map(|_| some_fd(&mut r, &mut keep)).collect()
                };
                let raws: Vec<i32> = fds.iter().map(|f| f.as_raw_fd()).collect();
                let i = r.below(conns.len() as u64) as usize;
                let t = now_ns();
                loop {
                    match raw::send(conns[i].as_raw_fd(), &d, &raws, libc::MSG_DONTWAIT) {
                        Ok(()) => {
                            OUT.count("attack_frames", 1);
                            OUT.distinct(format!("{story}/{k}"));
                            break;
                        }
                        Err(libc::EAGAIN) if now_ns() - t < 3_000_000_000 && on.load(Ordering::SeqCst) => sleep_us(200),
                        Err(libc::ETOOMANYREFS) if now_ns() - t < 1_000_000_000 => sleep_us(500),
                        Err(libc::EMSGSIZE) => break,
                        Err(_) => {
                            drop(conns.swap_remove(i));
                            break;
                        }
                    }
                }
            }
        }
        if keep.len() > 200 {
            keep.drain(..100);
        }
        if r.pct(10) {
            sleep_us(r.below(500));
        }
    }
}

fn limit_memory(_w: &World) -> Vec<(&'static str, String)> {
    // A frame that makes a participant allocate without bound must not bring down the machine
    if !crate::shim::loaded() {
        vec![] // the sanitizers need all of the address space
    } else {
        vec![("VH_AS", (6u64 << 30).to_string())]
    }
}

pub fn hostile(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 17]);
    // Not to be met by chance
    w.next_sid = 0xa5c3_96d2;
    for _ in 0..2 {
        let e = limit_memory(&w);
        w.peer_env(&e);
    }
    let hosts = w.hosts();
    let pool = strs(&["a", "b"]);
    let mut eps = vec![];
    for i in 0..4 {
        // The controller lives in a peer
        let h = if i < 2 { hosts[1 + i].clone() } else { r.pick(&hosts).clone() };
        let label = sublabel(&mut r, &pool);
        let aff = i == 0;
        let blocking = r.pct(50);
        let ep = w.join(&h, &label, |j| {
            j.aff = aff;
            if blocking {
                j.rx_timeout_ms = None;
            }
        });
        eps.push((ep, h));
    }
    // What do real frames look like?
    let (valid, n) = raw::record_connect(&w.ident, &strs(&["rec"]), "tok");
    let (refused, _) = raw::record_connect(&w.ident, &strs(&["a", "b"]), "wrong");
    if n != 1 {
        harness_error("handshake");
    }
    let mut seeds = vec![Seed { data: refused.clone(), nfds: 1, what: "connect" }];
    let mut ignore: BTreeSet<u32> = BTreeSet::new();
    {
        let rec = Raw::shake(&w.ident, &valid).unwrap_or_else(|| harness_error("no raw endpoint"));
        match raw::recv(rec.read.as_raw_fd(), 10_000) {
            Rx::Packet(d, _) => seeds.push(Seed { data: d, nfds: 0, what: "ack" }),
            _ => {
                OUT.violation("hostile:handshake", "a valid handshake gets no answer");
                return;
            }
        }
        let (ep, h) = eps[0].clone();
        let mut deep = Op::L("rec".into());
        for _ in 0..300 {
            deep = Op::N(Box::new(deep));
        }
        let mut pile = Op::L("rec".into());
        for i in 0..60 {
            pile = Op::O(Box::new(pile), Box::new(Op::L(format!("x{i}"))));
        }
        let kinds: Vec<(Op, bool, u64, u32, u32, u32)> = vec![
            (Op::T, false, 0, 0, 0, 20),
            (Op::T, false, 50_000_000, 2, 0, 20),
            (Op::T, false, 0, 0, 2, 20),
            (Op::L("rec".into()), true, 0, 1, 1, 300),
            (Op::L("rec".into()), false, u64::MAX, 0, 1, 0),
            (Op::O(Box::new(Op::F), Box::new(Op::L("rec".into()))), false, 0, 0, 0, 30_000),
            (deep, false, 0, 0, 0, 20),
            (pile, false, 0, 0, 0, 20),
        ];
        let sid = 0x1111_1111;
        ignore.insert(sid);
        for (i, (op, uni, ttl, no, nr, len)) in kinds.into_iter().enumerate() {
            let i = i as u32;
            let mut s = SendSpec::new(ep, sid, i, op).len(len);
            s.uni = uni;
            s.ttl_ns = ttl;
            for k in 0..no {
                h.get(Cmd::Ext("obj.make".into(), json!({"id": 1000 + i * 10 + k, "kind": "eventfd"})));
                s.objects.push(1000 + i * 10 + k);
            }
            for k in 0..nr {
                h.get(Cmd::Ext("mr.new".into(), json!({"id": 2000 + i * 10 + k, "size": 100})));
                s.regions.push(2000 + i * 10 + k);
            }
            h.send(s);
            match raw::recv(rec.read.as_raw_fd(), 10_000) {
                Rx::Packet(d, f) => seeds.push(Seed { data: d, nfds: f.len(), what: "data" }),
                _ => {
                    OUT.violation("hostile:raw endpoint", format!("no message {i}"));
                    return;
                }
            }
        }
    }
    let a = Arc::new(Attack { ident: w.ident.clone(), seeds, valid, refused });
    let on = Arc::new(AtomicBool::new(true));
    let attackers: Vec<_> = (0..r.range(1, 4))
        .map(|_| {
            let (a, on, r) = (a.clone(), on.clone(), r.fork());
            std::thread::spawn(move || attack(&a, r, &on))
        })
        .collect();
    let stable: BTreeSet<u32> = eps.iter().map(|e| e.0).collect();
    let mut settled = BTreeSet::new();
    for _ in 0..r.range(3, 6) {
        let mut bs = vec![];
        for _ in 0..3 {
            let (ep, h) = r.pick(&eps).clone();
            let mut ops: Vec<Op> = (0..3).map(|_| Op::random(&mut r, &pool, 2)).collect();
            ops.push(Op::T);
            ops.push(Op::leaf(&format!("@{}", r.pick(&eps).0)));
            let mut b = w.burst(ep, 150, ops);
            b.lens = vec![16, 64, 700];
            crate::traffic::spice(&mut b, &mut r);
            b.long_pct = 0;
            // A unicast to everybody could be taken by one of the strangers
            b.uni_pct = 0;
            b.gap_us = *r.pick(&[100, 400]);
            bs.push((h, b));
        }
        let joiner = {
            let h = r.pick(&hosts).clone();
            let spec = w.spec(&h, &strs(&["a"]), |j| j.aff = false);
            let ep = spec.ep;
            std::thread::spawn(move || {
                must_return("a join amid hostile traffic", 60, || h.must_join(spec));
                h.get(Cmd::Drop(ep));
            })
        };
        let barriers = w.bursts(bs);
        while !joiner.is_finished() {
            w.poll();
            sleep_us(500);
        }
        let _ = joiner.join();
        OUT.count("joins_amid", 1);
        if !w.settle(&barriers, &stable) {
            break;
        }
        settled.extend(barriers.keys().copied());
    }
    on.store(false, Ordering::SeqCst);
    for t in attackers {
        let _ = t.join();
    }
    // Once more in silence
    if !OUT.violated() {
        let bs: Vec<_> = eps
            .clone()
            .into_iter()
            .map(|(ep, h)| {
                let mut b = w.burst(ep, 5, vec![Op::T]);
                b.lens = vec![32];
                (h, b)
            })
            .collect();
        let barriers = w.bursts(bs);
        if w.settle(&barriers, &stable) {
            settled.extend(barriers.keys().copied());
        }
    }
    w.check(&Rules {
        settled: Some(settled),
        foreign: true,
        ignore,
        allow_err: ["decode".to_string()].into(),
        ..Rules::default()
    });
    for h in &hosts {
        // Still there?
        let _ = h.get(Cmd::Census);
    }
    w.check_badclose();
    OUT.sample(json!({"seeds": a.seeds.len(), "controller": eps[0].1.name()}));
}

/// A region that shrinks after it was sent.
pub fn shrunk(seed: u64) {
    let mut w = World::new(seed);
    let host = w.peer();
    let ep = w.join(&host, &strs(&["a"]), |_| {});
    let (valid, _) = raw::record_connect(&w.ident, &strs(&["rec"]), "tok");
    let rec = Raw::shake(&w.ident, &valid).unwrap_or_else(|| harness_error("no raw endpoint"));
    let _ = raw::recv(rec.read.as_raw_fd(), 10_000);
    host.get(Cmd::Ext("mr.new".into(), json!({"id": 1, "size": 100})));
    let mut s = SendSpec::new(ep, 900, 0, Op::L("rec".into())).ttl(std::time::Duration::from_millis(300));
    s.regions.push(1);
    host.send(s);
    let (d, fds) = match raw::recv(rec.read.as_raw_fd(), 10_000) {
        Rx::Packet(d, f) => (d, f),
        _ => harness_error("no message"),
    };
    drop((fds, rec));
    let m = unsafe {
        let f = mk(libc::memfd_create(c"x".as_ptr(), libc::MFD_CLOEXEC)).unwrap();
        libc::ftruncate(f.as_raw_fd(), 8192);
        f
    };
    let c = raw::connect(&w.ident).unwrap_or_else(|| harness_error("connect"));
    // Nobody takes it, it waits on the bus
    let _ = raw::send(c.as_raw_fd(), &d, &[m.as_raw_fd()], 0);
    sleep_ms(100);
    unsafe { libc::ftruncate(m.as_raw_fd(), 0) };
    sleep_ms(400);
    host.peer().expect_death();
    for i in 0..3 {
        let _ = host.call(Cmd::Send(SendSpec::new(ep, 901, i, Op::F)));
        sleep_ms(100);
    }
    OUT.count("shrunk", 1);
    if !host.peer().alive() {
        use std::os::unix::process::ExitStatusExt;
        let st = host.peer().wait();
        let sig = st.and_then(|s| s.signal());
        let what = if sig == Some(libc::SIGBUS) { "crash:attached region shrunk later" } else { "crash:other" };
        OUT.violation(what, format!("the process hosting the controller died: {st:?}"));
    }
}
