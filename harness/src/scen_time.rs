//! C18: timeouts. Measured on the real clock.
use crate::msg::*;
use crate::node::*;
use crate::util::*;
use crate::world::*;
use serde_json::json;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;

/// How much later than asked for is still soon.
const SLACK_NS: u64 = 400_000_000;

pub enum Late {
    No,
    Yes,
    Machine,
}

/// A finite wait of `t` that began at `b` and ended at `e` with a timeout.
fn judge(what: &str, t: u64, b: u64, e: u64, slack: u64) -> Late {
    let took = e - b;
    if took < t {
        OUT.violation("time:too early", format!("{what}: timeout of {t} ns reported after {took} ns"));
    }
    OUT.max("late_us", took.saturating_sub(t) / 1000);
    if took > t + slack {
        if worst_overshoot_ms() > 100 {
            return Late::Machine;
        }
        return Late::Yes;
    }
    Late::No
}

/// Too late once may be the machine, three times in a row it is not.
fn timed(what: &str, t: u64, slack: u64, mut f: impl FnMut() -> Option<(u64, u64)>) {
    let mut last = (0, 0);
    for _ in 0..3 {
        reset_overshoot();
        let (b, e) = match f() {
            Some(x) => x,
            None => return,
        };
        last = (b, e);
        OUT.count("timeouts_measured", 1);
        match judge(what, t, b, e, slack) {
            Late::No => return,
            Late::Yes => {}
            Late::Machine => {
                OUT.count("machine_late", 1);
                return;
            }
        }
    }
    OUT.violation("time:too late", format!("{what}: timeout of {t} ns reported after {} ns, three times in a row", last.1 - last.0));
}

fn durations(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => r.below(1000),
        3 => r.below(1_000_000),
        4 => 999_999,
        5 => 1_000_001 + r.below(5_000_000),
        _ => r.range(5, 120) * 1_000_000 + r.below(1_000_000),
    }
}

/// recv on an endpoint that gets nothing, or only what it does not want.
pub fn timeouts(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 18]);
    if crate::shim::loaded() {
        harness_error("the clock must be the real one");
    }
    for _ in 0..2 {
        w.peer();
    }
    let hosts = w.hosts();
    // An endpoint of each kind: hosting the controller or not
    let host_here = r.pct(50);
    let mut eps = vec![];
    let first = if host_here { hosts[0].clone() } else { hosts[1].clone() };
    let second = if host_here { hosts[1].clone() } else { hosts[0].clone() };
    for (i, h) in [first.clone(), second.clone()].iter().enumerate() {
        let ep = w.ep(h);
        let tag = format!("@{ep}");
        h.must_join(JoinSpec::new(ep, &w.ident, &["x", &tag]).rtype("stop").manual().aff(i == 0));
        eps.push((ep, h.clone()));
    }
    // What its receiver may get: messages of other types, at some pace
    let noisy = hosts[2].clone();
    let tx = w.join(&noisy, &strs(&["noise"]), |j| {
        j.aff = false;
        j.auto = false;
    });
    let wit = w.join(&noisy, &strs(&["wit"]), |j| {
        j.aff = false;
        j.auto = false;
    });
    let gap = *r.pick(&[None, None, Some(50u64), Some(1000), Some(20_000)]);
    // Signals that interrupt every wait: more often than most of the timeouts
    let storm = (Rng::of(&[seed, 1818]).pct(35) || std::env::var("VH_STORM").is_ok()).then(|| *Rng::of(&[seed, 1819]).pick(&[300u64, 2000, 10_000]));
    if let Some(gap) = storm {
        for h in [&first, &second] {
            h.get(Cmd::Storm(Some(gap)));
        }
        OUT.count("in_a_storm_of_signals", 1);
    }
    // Noise for this endpoint, until the flag falls
    let noise = |ep: u32| {
        let on = Arc::new(AtomicBool::new(true));
        let th = gap.map(|gap| {
            let (h, on) = (noisy.clone(), on.clone());
            std::thread::spawn(move || {
                let mut i = 0;
                while on.load(Ordering::SeqCst) {
                    h.send(SendSpec::new(tx, 700, i, Op::leaf(&format!("@{ep}"))).len([0, 50, 900][i as usize % 3]));
                    i += 1;
                    OUT.count("foreign_messages", 1);
                    sleep_us(gap);
                }
            })
        });
        (on, th)
    };
    // No more noise, and none of it is left
    let quiet = |(on, th): (Arc<AtomicBool>, Option<std::thread::JoinHandle<()>>), h: &Host, ep: u32, seq: &mut u32| {
        on.store(false, Ordering::SeqCst);
        if let Some(th) = th {
            let (nh, s) = (noisy.clone(), stop_spec(tx, ep, seq));
            let sender = std::thread::spawn(move || {
                let _ = th.join();
                nh.send(s)
            });
            let v = must_return("recv of what comes last", 30, || h.get(Cmd::Recv { ep, timeout_ns: None, hold: 1 }));
            if v["k"] != "Stop" {
                OUT.violation("time:recv without an end", format!("{v}"));
            }
            let _ = sender.join();
        }
    };
    let mut seq = 0;
    for _ in 0..r.range(6, 14) {
        let (ep, h) = r.pick(&eps).clone();
        let kind = if h.pid() == first.pid() { "the controller's endpoint" } else { "an endpoint" };
        let noise_text = match gap {
            Some(g) => format!("foreign messages every {g} us"),
            None => "silence".into(),
        };
        match r.below(10) {
            // It must wait as long as told
            0..=5 => {
                let t = durations(&mut r);
                OUT.distinct(format!("recv {kind} {t} {gap:?}"));
                timed(&format!("recv at {kind}, {noise_text}"), t, SLACK_NS, || {
                    let n = noise(ep);
                    let v = must_return("recv with a timeout", 30, || h.get(Cmd::Recv { ep, timeout_ns: Some(t), hold: 1 }));
                    quiet(n, &h, ep, &mut seq);
                    if v["err"] != "timeout" {
                        OUT.violation("time:recv", format!("{v} instead of a timeout"));
                        return None;
                    }
                    Some((v["b"].as_u64().unwrap(), v["e"].as_u64().unwrap()))
                });
            }
            // Forever, or as good as that
            6 | 7 => {
                let t = *r.pick(&[
                    None,
                    Some(u64::MAX),
                    Some(u64::MAX - 1),
                    Some(0x7fff_ffffu64 * 1_000_000),
                    Some(0x8000_0000u64 * 1_000_000),
                    Some(0xffff_ffffu64 * 1_000_000),
                    Some(0x1_0000_0005u64 * 1_000_000),
                ]);
                OUT.distinct(format!("recv {kind} {t:?} {gap:?}"));
                let wait = r.range(1, 60);
                let n = noise(ep);
                let sender = {
                    let nh = noisy.clone();
                    let s = stop_spec(tx, ep, &mut seq);
                    std::thread::spawn(move || {
                        sleep_ms(wait);
                        let at = now_ns();
                        nh.send(s);
                        at
                    })
                };
                let v = must_return("recv without an end", 30, || h.get(Cmd::Recv { ep, timeout_ns: t, hold: 1 }));
                let at = sender.join().unwrap();
                if v["k"] != "Stop" {
                    OUT.violation("time:recv without an end", format!("timeout {t:?} at {kind}: {v}"));
                    return;
                }
                if v["e"].as_u64().unwrap() < at {
                    OUT.violation("time:recv", "received before it was sent");
                }
                quiet(n, &h, ep, &mut seq);
                OUT.count("endless_recvs", 1);
            }
            // What is there is returned even at once
            _ => {
                let n = r.range(1, 4);
                for _ in 0..r.below(4) {
                    noisy.send(SendSpec::new(tx, 701, seq, Op::leaf(&format!("@{ep}"))));
                    seq += 1;
                }
                for _ in 0..n {
                    noisy.send(stop_spec(tx, ep, &mut seq));
                    for _ in 0..r.below(3) {
                        noisy.send(SendSpec::new(tx, 701, seq, Op::leaf(&format!("@{ep}"))));
                        seq += 1;
                    }
                }
                // Through the same connection, so the bus has handled the others
                noisy.send(SendSpec::new(tx, 702, seq, Op::leaf("wit")));
                loop {
                    let v = must_return("recv of the witness", 30, || noisy.get(Cmd::Recv { ep: wit, timeout_ns: None, hold: 1 }));
                    if v["seq"] == seq && v["sid"] == 702 {
                        break;
                    }
                }
                seq += 1;
                sleep_ms(30);
                for k in 0..n {
                    let t = *r.pick(&[0, 0, 1, 1000]);
                    let v = h.get(Cmd::Recv { ep, timeout_ns: Some(t), hold: 1 });
                    if v["k"] != "Stop" {
                        OUT.violation("time:available, but not returned", format!("message {k} of {n} at {kind}, timeout {t} ns, {noise_text}: {v}"));
                        return;
                    }
                    OUT.count("available_received", 1);
                }
            }
        }
    }
    if storm.is_some() {
        for h in [&first, &second] {
            let v = h.get(Cmd::Storm(None));
            OUT.count("signals_handled", v["signals"].as_u64().unwrap_or(0));
        }
    }
    OUT.sample(json!({"noise_gap_us": gap, "signal_gap_us": storm, "controller": first.name()}));
}

fn stop_spec(tx: u32, ep: u32, seq: &mut u32) -> SendSpec {
    let b = SBox::of(&In::Stop(Stop { ep }));
    let mut s = SendSpec::new(tx, 703, *seq, Op::leaf(&format!("@{ep}")));
    *seq += 1;
    s.raw = Some((b.uuid, b.data));
    s.len = 0;
    s
}

/// join when there is no bus, or one that does not answer.
pub fn join_timeouts(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 181]);
    if crate::shim::loaded() {
        harness_error("the clock must be the real one");
    }
    let here = w.here();
    let case = r.below(6);
    match case {
        // The controller ends before it has answered
        4 | 5 => {
            let t = r.range(150, 900);
            let die = r.range(10, 100);
            let ident = w.ident.clone();
            let survivor = r.pct(50);
            let old = if survivor {
                // It was a member of another bus of that name before
                let q = w.peer();
                let (e1, e2) = (w.ep(&q), w.ep(&here));
                q.must_join(JoinSpec::new(e1, &ident, &["y"]));
                here.must_join(JoinSpec::new(e2, &ident, &["z"]).manual().aff(false));
                q.peer().kill();
                Some(e2)
            } else {
                None
            };
            timed("wait for an answer of a controller that ends", t * 1_000_000, SLACK_NS, || {
                let q = w.peer();
                let e1 = w.ep(&q);
                q.must_join(JoinSpec::new(e1, &ident, &["y"]));
                q.peer().stop_cont(true);
                let killer = {
                    let q = q.clone();
                    std::thread::spawn(move || {
                        sleep_ms(die);
                        q.peer().kill();
                    })
                };
                let v = match old {
                    Some(ep) => must_return("recv with a timeout", 30, || here.get(Cmd::Recv { ep, timeout_ns: Some(t * 1_000_000), hold: 1 })),
                    None => {
                        let ep = w.ep(&here);
                        must_return("join with a timeout", 30, || here.join(JoinSpec::new(ep, &ident, &["x"]).manual().aff(false).timeout(Some(t))))
                    }
                };
                let _ = killer.join();
                OUT.count("ended_unanswered", 1);
                if v["err"] != "timeout" {
                    OUT.violation("time:join", format!("{v} instead of a timeout"));
                    return None;
                }
                Some((v["b"].as_u64().unwrap(), v["e"].as_u64().unwrap()))
            });
            OUT.distinct(format!("join ended {t} {die} {survivor}"));
        }
        // Nobody there
        0 | 1 => {
            let t = match r.below(4) {
                0 => 0,
                1 => r.below(50),
                2 => r.range(50, 400),
                _ => r.range(1900, 2600),
            };
            let ident = w.ident.clone();
            timed("join of a bus that is not there", t * 1_000_000, SLACK_NS, || {
                let ep = w.ep(&here);
                let v = must_return("join with a timeout", 30, || here.join(JoinSpec::new(ep, &ident, &["x"]).manual().aff(false).timeout(Some(t))));
                if v["err"] != "timeout" {
                    OUT.violation("time:join", format!("{v} instead of a timeout"));
                    return None;
                }
                Some((v["b"].as_u64().unwrap(), v["e"].as_u64().unwrap()))
            });
            OUT.distinct(format!("join {t}"));
        }
        // It comes later
        2 => {
            let t = *r.pick(&[None, Some(u64::MAX), Some(u64::MAX / 1_000_000), Some(20_000)]);
            let p = w.peer();
            let (e1, e2) = (w.ep(&here), w.ep(&p));
            let ident = w.ident.clone();
            let j1 = JoinSpec::new(e1, &ident, &["x"]).aff(false).timeout(t);
            let wait = r.range(10, 700);
            let h = here.clone();
            let th = std::thread::spawn(move || must_return("join without an end", 60, || h.join(j1)));
            sleep_ms(wait);
            p.must_join(JoinSpec::new(e2, &ident, &["y"]));
            let v = th.join().unwrap();
            if !v["err"].is_null() {
                OUT.violation("time:join", format!("timeout {t:?} ms, bus after {wait} ms: {v}"));
            }
            OUT.count("endless_joins", 1);
            OUT.distinct(format!("join later {t:?} {wait}"));
        }
        // The controller is stopped
        _ => {
            let p = w.peer();
            let e2 = w.ep(&p);
            p.must_join(JoinSpec::new(e2, &w.ident, &["y"]));
            let t = r.range(20, 900);
            let ident = w.ident.clone();
            p.peer().stop_cont(true);
            // One answer is waited for two seconds
            timed("join of a bus whose controller is stopped", t * 1_000_000, 2_000_000_000 + SLACK_NS, || {
                let ep = w.ep(&here);
                let v = must_return("join with a timeout", 30, || here.join(JoinSpec::new(ep, &ident, &["x"]).manual().aff(false).timeout(Some(t))));
                if v["err"] != "timeout" {
                    OUT.violation("time:join", format!("{v} instead of a timeout"));
                    return None;
                }
                Some((v["b"].as_u64().unwrap(), v["e"].as_u64().unwrap()))
            });
            p.peer().stop_cont(false);
            OUT.distinct(format!("join stopped {t}"));
        }
    }
}

/// recv with a timeout while the controller goes away and nobody takes over.
pub fn lost_timeouts(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 182]);
    let p = w.peer();
    let here = w.here();
    let e0 = w.ep(&p);
    p.must_join(JoinSpec::new(e0, &w.ident, &["y"]));
    let ep = w.ep(&here);
    here.must_join(JoinSpec::new(ep, &w.ident, &["x"]).manual().aff(false));
    let t = r.range(200, 900);
    let frac = r.below(90);
    // Another thread tries to send
    let sends = r.pct(60);
    reset_overshoot();
    let node = w.here.clone();
    let rx = std::thread::spawn(move || must_return("recv with a timeout after the controller died", 30, || node.exec(Cmd::Recv { ep, timeout_ns: Some(t * 1_000_000), hold: 1 })));
    sleep_ms(t * frac / 100);
    p.peer().kill();
    if sends {
        for _ in 0..r.range(1, 2) {
            let node = w.here.clone();
            std::thread::spawn(move || {
                node.exec(Cmd::Send(SendSpec::new(ep, 1, 0, Op::T)));
            });
        }
    }
    let v = rx.join().unwrap();
    OUT.count("timeouts_measured", 1);
    if v["err"] != "timeout" {
        OUT.violation("time:recv", format!("{v} instead of a timeout"));
    } else {
        match judge("recv while the controller is gone", t * 1_000_000, v["b"].as_u64().unwrap(), v["e"].as_u64().unwrap(), SLACK_NS) {
            Late::Yes => OUT.violation(
                "time:too late without controller",
                format!("timeout of {t} ms reported after {} ms, the controller died after {frac} %, another thread sends: {sends}", (v["e"].as_u64().unwrap() - v["b"].as_u64().unwrap()) / 1_000_000),
            ),
            _ => {}
        }
    }
    // And the receiver can still be dropped
    let node = w.here.clone();
    must_return("drop of the receiver without a controller", 10, || node.exec(Cmd::CloseRx(ep)));
    OUT.count("dropped_without_controller", 1);
    OUT.distinct(format!("lost {t} {frac} {sends}"));
    let _ = Duration::ZERO;
}

fn long(r: &mut Rng) -> u64 {
    const S: u64 = 1_000_000_000;
    let s = match r.below(8) {
        0 => r.range(1, 9),
        1 => r.range(10, 59),
        2 => r.range(60, 3599),
        3 => r.range(3600, 86_399),
        4 => 86_400 * r.range(1, 23),
        // The milliseconds exceed 31 bits, then 32
        5 => 86_400 * r.range(25, 48),
        6 => 86_400 * r.range(50, 400),
        _ => *r.pick(&[2_147_483, 2_147_484, 4_294_967, 4_294_968]),
    };
    s * S + r.below(S)
}

/// Waits of seconds to months, of which the clock skips the most.
pub fn long_timeouts(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 183]);
    if !crate::shim::loaded() || std::env::var("VH_VWAIT").is_err() {
        harness_error("the waits must follow the virtual clock");
    }
    let here = w.here();
    let (p1, p2, p3) = (w.peer(), w.peer(), w.peer());
    let (a, b) = (w.ep(&p1), w.ep(&p2));
    p1.must_join(JoinSpec::new(a, &w.ident, &["a", &format!("@{a}")]).rtype("stop").manual().aff(true));
    p2.must_join(JoinSpec::new(b, &w.ident, &["b", &format!("@{b}")]).rtype("stop").manual().aff(false));
    let tx = w.join(&here, &strs(&["tx"]), |j| {
        j.aff = false;
        j.auto = false;
    });
    let mut seq = 0;
    let mut lost = false;
    for _ in 0..r.range(5, 9) {
        let (what, h, ep) = match r.below(if lost { 2 } else { 5 }) {
            0 => ("join", p3.clone(), 0),
            1 | 2 => ("recv at an endpoint", p2.clone(), b),
            _ => ("recv at the controller's endpoint", p1.clone(), a),
        };
        let t = long(&mut r);
        let expires = lost || r.pct(50);
        let ident = if what == "join" { ident(&mut r) } else { String::new() };
        let mut late = 0;
        loop {
            reset_overshoot();
            let done = Arc::new(AtomicBool::new(false));
            let jep = w.ep(&p3);
            let th = {
                let (h, ident, done) = (h.clone(), ident.clone(), done.clone());
                std::thread::spawn(move || {
                    let v = must_return(what, 60, || {
                        if ep == 0 {
                            let mut j = JoinSpec::new(jep, &ident, &["late"]).manual().aff(false);
                            j.timeout_ms = Some(t / 1_000_000);
                            h.join(j)
                        } else {
                            h.get(Cmd::Recv { ep, timeout_ns: Some(t), hold: 1 })
                        }
                    });
                    done.store(true, Ordering::SeqCst);
                    (v, now_ns())
                })
            };
            let t = if ep == 0 { t / 1_000_000 * 1_000_000 } else { t };
            sleep_ms(r.range(15, 40));
            let mut ahead = 0;
            let n = r.range(1, 4);
            for k in 0..n {
                if done.load(Ordering::SeqCst) {
                    break;
                }
                // 900 ms are left for what happens in the meantime
                let left = (t - ahead).saturating_sub(900_000_000);
                let d = if k + 1 == n { left } else { r.below(left + 1) };
                h.get(Cmd::ClockAdd(d));
                ahead += d;
                OUT.count("clock_steps", 1);
                if ep != 0 && !lost && r.pct(40) {
                    here.send(SendSpec::new(tx, 704, seq, Op::leaf(&format!("@{ep}"))));
                    seq += 1;
                    OUT.count("foreign_messages", 1);
                }
                if ep == b && !lost && r.pct(6) {
                    p1.peer().kill();
                    lost = true;
                    OUT.count("controller_deaths", 1);
                }
                sleep_ms(r.range(15, 50));
            }
            let expires = expires || lost;
            let over = format!("{what}, timeout {t} ns, clock moved by {ahead} ns");
            let before = done.load(Ordering::SeqCst);
            let at = now_ns();
            if before {
            } else if expires {
                h.get(Cmd::ClockAdd(t - ahead));
                // Should it have begun after the clock was moved first, it is late, but must end
                while !done.load(Ordering::SeqCst) && now_ns() < at + 5_000_000_000 {
                    sleep_ms(1);
                }
                h.get(Cmd::ClockAdd(t));
            } else if ep == 0 {
                let c = w.ep(&p2);
                p2.must_join(JoinSpec::new(c, &ident, &["ctl"]).manual().aff(true));
            } else {
                here.send(stop_spec(tx, ep, &mut seq));
            }
            let (v, end) = th.join().unwrap();
            // The stamps are of the real clock
            let took = v["e"].as_u64().unwrap_or(0).saturating_sub(v["b"].as_u64().unwrap_or(0));
            if v["err"] == "timeout" {
                if (before || !expires) && took + ahead < t {
                    OUT.violation("time:too early", format!("{over}: timeout after {took} ns besides"));
                    return;
                }
            } else if expires || if ep == 0 { !v["err"].is_null() } else { v["k"] != "Stop" } {
                OUT.violation("time:long wait", format!("{over}: {v}"));
                return;
            } else {
                OUT.count("reached_amid_long_wait", 1);
            }
            OUT.count("long_waits", 1);
            OUT.distinct(format!("{what} {t} {expires} {n}"));
            if expires && !before {
                OUT.max("long_late_us", end.saturating_sub(at) / 1000);
                if end > at + 1_000_000_000 + SLACK_NS {
                    if worst_overshoot_ms() > 100 {
                        OUT.count("machine_late", 1);
                    } else if late == 2 {
                        OUT.violation("time:too late", format!("{over}: reported {} ms after the clock was there, three times in a row", (end - at) / 1_000_000));
                        return;
                    } else {
                        late += 1;
                        continue;
                    }
                }
            }
            break;
        }
    }
}
