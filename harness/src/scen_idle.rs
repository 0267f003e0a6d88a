//! C29: whoever only waits leaves the processor alone.
use crate::node::*;
use crate::raw;
use crate::util::*;
use crate::world::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::os::fd::OwnedFd;

/// Of every thread: nanoseconds on a processor, times it gave the processor up by itself.
fn usage(pid: i32) -> BTreeMap<i32, (u64, u64, String)> {
    let mut v = BTreeMap::new();
    let dir = match std::fs::read_dir(format!("/proc/{pid}/task")) {
        Ok(d) => d,
        Err(_) => return v,
    };
    for t in dir.flatten() {
        let p = t.path();
        let tid = t.file_name().to_string_lossy().parse().unwrap_or(0);
        let s = std::fs::read_to_string(p.join("schedstat")).unwrap_or_default();
        let on: u64 = s.split(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0);
        let st = std::fs::read_to_string(p.join("status")).unwrap_or_default();
        let sw = st
            .lines()
            .find_map(|l| l.strip_prefix("voluntary_ctxt_switches:"))
            .and_then(|x| x.trim().parse().ok())
            .unwrap_or(0);
        let name = st.lines().next().unwrap_or("").trim_start_matches("Name:").trim().to_owned();
        v.insert(tid, (on, sw, name));
    }
    v
}

const WINDOW_MS: u64 = 250;
/// A quiet window: less than 4 % of a processor, and fewer than 100 wake-ups a second
const BUSY_NS: u64 = 10_000_000;
const BUSY_SWITCHES: u64 = 25;

struct Idle {
    w: World,
    r: Rng,
    story: Vec<String>,
    /// Their own threads work, they are not judged
    strays: Vec<OwnedFd>,
    raws: Vec<raw::Raw>,
}

impl Idle {
    /// Everybody comes to rest: of so many windows at least one is quiet.
    fn rest(&mut self, alive: &[Host]) -> bool {
        let mut restless: BTreeMap<i32, Vec<String>> = alive.iter().map(|h| (h.pid(), vec![])).collect();
        for _ in 0..14 {
            let before: Vec<_> = restless.keys().map(|p| (*p, usage(*p))).collect();
            let t = now_ns();
            sleep_ms(WINDOW_MS);
            for (pid, b) in before {
                let a = usage(pid);
                let k = 1 + (now_ns() - t) / 1_000_000 / WINDOW_MS;
                let mut what = vec![];
                let (mut on, mut sw) = (0, 0);
                for (tid, (ns, n, name)) in &a {
                    // A thread that has just started has done something else before
                    if let Some((ns0, n0, _)) = b.get(tid) {
                        on += ns - ns0;
                        sw += n - n0;
                        if ns - ns0 > BUSY_NS / 4 || n - n0 > BUSY_SWITCHES / 4 {
                            what.push(format!("{name}: {} ms, woken {} times", (ns - ns0) / 1_000_000, n - n0));
                        }
                    }
                }
                if on < BUSY_NS * k && sw < BUSY_SWITCHES * k {
                    restless.remove(&pid);
                    OUT.count("rests", 1);
                } else {
                    *restless.get_mut(&pid).unwrap() = what;
                }
            }
            if restless.is_empty() {
                return true;
            }
        }
        for (pid, what) in restless {
            let who = alive.iter().find(|h| h.pid() == pid).map(|h| h.name()).unwrap_or_default();
            let tail = self.story.iter().rev().take(12).rev().cloned().collect::<Vec<_>>().join("; ");
            OUT.violation(
                "idle:busy",
                format!("{who} keeps the processor busy while it only waits ({}); after: {tail}", what.join(", ")),
            );
        }
        false
    }
}

pub fn idle(seed: u64) {
    let mut w = World::new(seed);
    let r = Rng::of(&[seed, 29]);
    let mut s = Idle { w, r, story: vec![], strays: vec![], raws: vec![] };
    let n = s.r.range(2, 4);
    let mut alive: Vec<Host> = (0..n).map(|_| s.w.peer()).collect();
    let ctl = alive[0].clone();
    // (endpoint, where, receives by itself)
    let mut eps: Vec<(u32, Host, bool)> = vec![];
    let sid = s.w.sid();
    let mut seq = 0;
    let mut waiting = vec![];
    let mut joiner = 0;
    let mut full = false;
    let mut ctl_ep = None;
    let steps = s.r.range(6, 12);
    let mut frame = vec![];
    for step in 0..steps {
        let acts = if step == 0 { 1 } else { s.r.range(1, 4) };
        for _ in 0..acts {
            let h = if step == 0 { ctl.clone() } else { s.r.pick(&alive).clone() };
            match if step == 0 { 0 } else { s.r.below(14) } {
                0 | 1 => {
                    let auto = s.r.pct(75);
                    let limit = *s.r.pick(&[None, None, Some(60_000), Some(3_000_000)]);
                    let first = step == 0;
                    let ep = s.w.join(&h, &strs(&["a"]), |j| {
                        j.aff = first;
                        j.auto = auto;
                        j.rx_timeout_ms = limit;
                    });
                    if first {
                        ctl_ep = Some(ep);
                    }
                    s.story.push(format!("{ep} joins in {} (receives {auto}, timeout {limit:?})", h.name()));
                    eps.push((ep, h, auto));
                }
                2 if !eps.is_empty() => {
                    let i = s.r.below(eps.len() as u64) as usize;
                    // A blocking one is woken by a message to itself, so the sender is still needed
                    let (ep, h, auto) = eps.swap_remove(i);
                    match s.r.below(3) {
                        0 if !auto => {
                            h.get(Cmd::DropTx(ep));
                            s.story.push(format!("{ep} drops its sender"));
                        }
                        1 => {
                            h.get(Cmd::CloseRx(ep));
                            s.story.push(format!("{ep} drops its receiver"));
                        }
                        _ => {
                            h.get(Cmd::Drop(ep));
                            s.story.push(format!("{ep} leaves"));
                        }
                    }
                    OUT.count("leaves", 1);
                }
                3 if alive.len() > 1 => {
                    let i = s.r.range(1, alive.len() as u64 - 1) as usize;
                    let h = alive.remove(i);
                    h.peer().kill();
                    eps.retain(|e| e.1.pid() != h.pid());
                    s.story.push(format!("{} is killed", h.name()));
                    let h = s.w.peer();
                    alive.push(h);
                    OUT.count("kills", 1);
                }
                4 => {
                    let ep = s.w.ep(&h);
                    let j = JoinSpec::new(ep, &s.w.ident.clone(), &["x"]).token("wrong").aff(false).manual();
                    h.join(j);
                    s.story.push(format!("a wrong token from {}", h.name()));
                    OUT.count("refused", 1);
                }
                5 => {
                    // Connections that stay, that end in some stage, that are half closed
                    match s.r.below(6) {
                        0 => s.strays.extend(raw::connect(&s.w.ident)),
                        1 => {
                            if let Some(c) = raw::connect(&s.w.ident) {
                                use std::os::fd::AsRawFd;
                                let k = s.r.below(frame.len() as u64) as usize;
                                let _ = raw::send(c.as_raw_fd(), &frame[..k], &[], 0);
                                s.strays.push(c);
                            }
                        }
                        2 => {
                            if let Some(c) = raw::connect(&s.w.ident) {
                                use std::os::fd::AsRawFd;
                                let d = s.r.fill(50);
                                let _ = raw::send(c.as_raw_fd(), &d, &[], 0);
                                unsafe { libc::shutdown(c.as_raw_fd(), *s.r.pick(&[libc::SHUT_WR, libc::SHUT_RD, libc::SHUT_RDWR])) };
                                s.strays.push(c);
                            }
                        }
                        3 => {
                            if let Some(x) = raw::Raw::shake(&s.w.ident, &frame) {
                                drop(x.conn);
                                s.strays.push(x.read);
                            }
                        }
                        4 => {
                            if let Some(x) = raw::Raw::shake(&s.w.ident, &frame) {
                                drop(x.read);
                                s.strays.push(x.conn);
                            }
                        }
                        _ => s.raws.extend(raw::Raw::shake(&s.w.ident, &frame)),
                    }
                    s.story.push("somebody else connects".into());
                    OUT.count("strays", 1);
                }
                6 => {
                    s.strays.clear();
                    s.raws.clear();
                    s.story.push("the others disconnect".into());
                }
                7 | 8 if !eps.is_empty() && seq < 60 => {
                    let (ep, h, _) = s.r.pick(&eps).clone();
                    for _ in 0..s.r.range(1, 20) {
                        let to = s.r.pick(&eps).0;
                        let op = match s.r.below(4) {
                            0 => Op::leaf("nobody"),
                            1 => Op::leaf(&format!("@{to}")),
                            _ => Op::leaf("a"),
                        };
                        let mut m = SendSpec::new(ep, sid, seq, op);
                        m.uni = s.r.pct(40);
                        m.ttl_ns = *s.r.pick(&[0, 1_000_000, 3_600_000_000_000]);
                        if s.r.pct(15) {
                            m.raw = Some(([9; 16], vec![3; 9]));
                        }
                        seq += 1;
                        h.send(m);
                    }
                    s.story.push(format!("{ep} sends"));
                    OUT.count("sends", 1);
                }
                9 => {
                    // Somebody waits for a bus that is not there
                    let ident = format!("{}-{joiner}", s.w.ident);
                    joiner += 1;
                    let ep = s.w.ep(&h);
                    let mut j = JoinSpec::new(ep, &ident, &["x"]).aff(false).manual();
                    j.timeout_ms = *s.r.pick(&[None, Some(600_000)]);
                    waiting.extend(h.peer().start(&Cmd::Join(j)).ok());
                    s.story.push(format!("a join in {} waits for a controller", h.name()));
                    OUT.count("waiting_joins", 1);
                }
                10 if !full && step + 3 >= steps => {
                    // A receiver that is full stops whoever sends to it
                    let (ep, h) = match eps.iter().find(|e| !e.2 && Some(e.0) != ctl_ep) {
                        Some(e) => (e.0, e.1.clone()),
                        None => continue,
                    };
                    full = true;
                    let b = s.w.burst(ep, 400, vec![Op::leaf(&format!("@{ep}"))]);
                    let b = Burst { barrier: false, lens: vec![20_000], ..b };
                    waiting.extend(h.peer().start(&Cmd::Burst(b)).ok());
                    sleep_ms(30);
                    s.story.push(format!("{ep} is full"));
                    OUT.count("full", 1);
                }
                11 => {
                    // A receive that nothing ends
                    let i = match eps.iter().position(|e| !e.2) {
                        Some(i) => i,
                        None => continue,
                    };
                    let (ep, h, _) = eps.swap_remove(i);
                    if full {
                        continue;
                    }
                    loop {
                        let v = h.get(Cmd::Recv { ep, timeout_ns: Some(1_000_000), hold: 0 });
                        if v["err"] == "timeout" {
                            break;
                        }
                    }
                    let t = *s.r.pick(&[None, Some(u64::MAX), Some(3_600_000_000_000)]);
                    waiting.extend(h.peer().start(&Cmd::Recv { ep, timeout_ns: t, hold: 0 }).ok());
                    s.story.push(format!("{ep} receives for {t:?} ns"));
                    OUT.count("endless_receives", 1);
                }
                _ => {}
            }
            if full {
                break;
            }
        }
        if step == 0 {
            frame = raw::record_connect(&s.w.ident, &strs(&["raw"]), "tok").0;
        }
        if !s.rest(&alive) {
            return;
        }
        if full {
            break;
        }
    }
    OUT.distinct(format!("{:?}", s.story));
    OUT.sample(json!({"story": s.story}));
    // The controller goes; somebody takes over, and there is peace again
    if !full && s.r.pct(60) {
        alive.remove(0);
        ctl.peer().kill();
        s.story.push("the controller is killed".into());
        eps.retain(|e| e.1.pid() != ctl.pid());
        if s.r.pct(30) {
            // Nobody can, everybody waits
            s.story.push("nobody takes over".into());
            if !s.rest(&alive) {
                return;
            }
            OUT.count("orphaned", 1);
        }
        let h = s.w.peer();
        let ep = s.w.join(&h, &strs(&["a"]), |j| j.rx_timeout_ms = None);
        alive.push(h.clone());
        s.story.push(format!("{ep} takes over in {}", h.name()));
        if !s.rest(&alive) {
            return;
        }
        OUT.count("taken_over", 1);
    }
    for p in &s.w.peers {
        p.expect_death();
    }
}

