//! C11: messages that wait for their receiver.
use crate::node::*;
use crate::util::*;
use crate::world::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
struct M {
    sid: u32,
    seq: u32,
    uni: bool,
    label: String,
    ttl: u64,
    /// virtual time: begin of the send, and when it had been routed for sure
    b: u64,
    routed: u64,
    gone: bool,
    len: u32,
    kind: u8,
}

const FOREVER: u64 = 1 << 62;

pub fn ttl(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 11]);
    if r.pct(40) {
        crate::shim::set_delay(10, 300, seed);
    }
    for _ in 0..r.range(1, 2) {
        let env = if r.pct(40) {
            vec![("VH_DELAY", format!("10,300,{}", r.u64() >> 1))]
        } else {
            vec![]
        };
        w.peer_env(&env);
    }
    let hosts = w.hosts();
    let controller = r.pick(&hosts).clone();
    let labels = strs(&["late0", "late1", "late2"]);
    // An endpoint that had the label, but does not receive any more, does not count
    let host_label = if r.pct(30) { vec![labels[0].clone()] } else { vec![] };
    let e0 = w.join(&controller, &host_label, |j| j.auto = false);
    let mut closed_host = false;
    let mut senders: Vec<(u32, Host, u32, u32)> = vec![];
    for _ in 0..r.range(1, 3) {
        let h = r.pick(&hosts).clone();
        let ep = w.join(&h, &[], |j| {
            j.auto = false;
            j.aff = false;
        });
        let sid = w.sid();
        senders.push((ep, h, sid, 0));
    }
    if !host_label.is_empty() {
        controller.get(Cmd::CloseRx(e0));
        closed_host = true;
    }
    let mut offset = 0u64;
    let mut pending: Vec<M> = vec![];
    let mut expect_none = 0u64;
    let mut story = vec![];
    let fail = |sig: &str, what: String, story: &Vec<String>| -> ! {
        OUT.violation(sig, format!("{what}; history: {}", story.iter().rev().take(14).rev().cloned().collect::<Vec<_>>().join("; ")));
        OUT.finish()
    };
    for round in 0..r.range(6, 14) {
        // Departed ones of that label
        if r.pct(25) {
            let h = r.pick(&hosts).clone();
            let l = r.pick(&labels).clone();
            if pending.iter().all(|m| m.label != l || m.gone) {
                let ep = w.join(&h, &[l.clone()], |j| {
                    j.auto = false;
                    j.aff = false;
                });
                h.get(if r.pct(50) { Cmd::CloseRx(ep) } else { Cmd::Drop(ep) });
                story.push(format!("one with {l} joined and left"));
            }
        }
        let n = r.range(1, 12);
        for _ in 0..n {
            let i = r.below(senders.len() as u64) as usize;
            let l = r.pick(&labels).clone();
            let ttl = match r.below(14) {
                0 | 1 => 0,
                2 => r.range(1, 999_999),
                3 => r.range(1, 50) * 1_000_000,
                4 => r.range(1, 20) * 1_000_000_000,
                5 => 3_600_000_000_000,
                12 => *r.pick(&[100_000u64, 1_000_000, 40_000_000]) * 1_000_000_000,
                6 => u64::MAX,
                7 => u64::MAX - 1,
                8 => r.range(1 << 62, u64::MAX - 2),
                _ => r.range(1, 200) * 1_000_000_000,
            };
            let uni = r.pct(50);
            let s = &mut senders[i];
            s.3 += 1;
            let mut spec = SendSpec::new(s.0, s.2, s.3, Op::leaf(&l));
            spec.uni = uni;
            spec.ttl_ns = ttl;
            spec.len = r.below(300) as u32;
            if r.pct(6) {
                spec.len = *r.pick(&[5000, 30_000, 65_000]);
            }
            if r.pct(10) {
                spec.kind |= ATT;
                OUT.count("sent_with_attachments", 1);
            }
            let (len, kind) = (spec.len, spec.kind);
            let b = now_ns() + offset;
            if let Some(e) = s.1.send(spec) {
                fail("ttl:send", format!("send with a time to live of {ttl} ns failed: {e}"), &story);
            }
            story.push(format!("{}.{} to {l} ttl {} ms uni {uni}", s.2, s.3, ttl / 1_000_000));
            pending.push(M {
                sid: s.2,
                seq: s.3,
                uni,
                label: l,
                ttl,
                b,
                routed: 0,
                gone: false,
                len,
                kind,
            });
            OUT.count("sent", 1);
        }
        // All of them have been routed once what follows them has come back
        for s in &mut senders {
            s.3 += 1;
            let spec = SendSpec::new(s.0, s.2, s.3, Op::leaf(&format!("@{}", s.0)));
            s.1.send(spec);
            let v = s.1.recv(s.0, 20_000, 0);
            if v["seq"] != s.3 || v["sid"] != s.2 {
                fail("ttl:barrier", format!("{v} instead of {}.{}", s.2, s.3), &story);
            }
        }
        // Who has sent them may leave, they still wait
        if senders.len() > 1 && r.pct(12) {
            let i = r.below(senders.len() as u64) as usize;
            let (ep, h, ..) = senders.swap_remove(i);
            h.get(Cmd::Drop(ep));
            story.push(format!("the sender {ep} left"));
            OUT.count("senders_left", 1);
        }
        let routed = now_ns() + offset;
        for m in pending.iter_mut().filter(|m| m.routed == 0) {
            m.routed = routed;
        }
        if r.pct(65) {
            let d = *r.pick(&[5_000_000u64, 60_000_000, 900_000_000, 4_000_000_000, 31_000_000_000, 150_000_000_000, 3_500_000_000_000, 90_000_000_000_000, 2_000_000_000_000_000]);
            controller.get(Cmd::ClockAdd(d));
            offset += d;
            story.push(format!("{} ms pass", d / 1_000_000));
        } else if r.pct(50) {
            sleep_us(r.below(40_000));
        }
        // Joins: somebody else, and some that messages wait for
        for _ in 0..r.range(1, 2) {
            let h = r.pick(&hosts).clone();
            let mut l: Vec<String> = labels.iter().filter(|_| r.pct(45)).cloned().collect();
            if round % 4 == 3 {
                l = labels.clone();
            }
            let jb = now_ns() + offset;
            let ep = w.join(&h, &l, |j| {
                j.auto = false;
                j.aff = false;
            });
            let je = now_ns() + offset;
            story.push(format!("{l:?} joins"));
            // Whatever waited comes before this
            let s = r.below(senders.len() as u64) as usize;
            let s = &mut senders[s];
            s.3 += 1;
            s.1.send(SendSpec::new(s.0, s.2, s.3, Op::leaf(&format!("@{ep}"))));
            let mut got: Vec<(u32, u32)> = vec![];
            loop {
                let v = h.recv(ep, 20_000, 0);
                if let Some(e) = v["err"].as_str() {
                    fail("ttl:recv", format!("{e} at the new endpoint {l:?}, which had received {got:?}"), &story);
                }
                let k = (v["sid"].as_u64().unwrap() as u32, v["seq"].as_u64().unwrap() as u32);
                if v["ok"] != true {
                    fail("ttl:payload", format!("{v}"), &story);
                }
                if k == (s.2, s.3) {
                    break;
                }
                if let Some(m) = pending.iter().find(|m| (m.sid, m.seq) == k) {
                    if v["len"] != m.len || v["kind"] != m.kind {
                        fail("ttl:payload", format!("{v} instead of {m:?}"), &story);
                    }
                }
                got.push(k);
            }
            let set: BTreeSet<String> = l.iter().cloned().collect();
            let mut last: BTreeMap<u32, u32> = BTreeMap::new();
            for (sid, seq) in &got {
                let m = match pending.iter_mut().find(|m| m.sid == *sid && m.seq == *seq) {
                    Some(m) => m,
                    None => fail("ttl:phantom", format!("{sid}.{seq} was not waiting"), &story),
                };
                if m.gone {
                    fail("ttl:again", format!("{m:?} had been delivered before"), &story);
                }
                if !set.contains(&m.label) {
                    fail("ttl:misdelivered", format!("{m:?} to {l:?}"), &story);
                }
                if last.insert(*sid, *seq).map_or(false, |x| x > *seq) {
                    fail("ttl:order", format!("{got:?}"), &story);
                }
                let slack = 1_000_000 + (jb - m.b) / 1000;
                if m.ttl == 0 || m.ttl < FOREVER && jb > m.routed + m.ttl + slack {
                    fail(
                        "ttl:expired",
                        format!("{m:?} delivered to a join {} ms after it had expired", (jb - m.routed.min(jb)).saturating_sub(m.ttl) / 1_000_000),
                        &story,
                    );
                }
                m.gone = true;
                OUT.count("delivered_late", 1);
            }
            let mut may = 0;
            for m in pending.iter_mut().filter(|m| !m.gone && set.contains(&m.label)) {
                let slack = 1_000_000 + (je - m.b) / 1000;
                let must = m.ttl >= FOREVER || m.ttl > 0 && je + slack < m.b + m.ttl;
                if must {
                    fail("ttl:lost", format!("{m:?} was not delivered to the join {} ms after it", (je - m.b) / 1_000_000), &story);
                }
                if m.ttl == 0 || jb > m.routed + m.ttl + slack {
                    expect_none += 1;
                } else {
                    may += 1;
                }
                m.gone = true;
            }
            OUT.count("undecided", may);
            OUT.distinct(format!("{:x}", hash(format!("{got:?}{l:?}{story:?}").as_bytes())));
            // Must not stay, or the next messages would find it
            h.get(Cmd::Drop(ep));
        }
    }
    OUT.count("expired_not_delivered", expect_none);
    OUT.count("closed_host", closed_host as u64);
    OUT.sample(json!(story.iter().take(20).collect::<Vec<_>>()));
    w.check_badclose();
}

/// Sends and the join they wait for at the same time: none may fall in between.
pub fn ttl_race(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 11, 1]);
    crate::shim::set_delay(*r.pick(&[5, 20, 40]), *r.pick(&[100, 500, 2000]), seed);
    for _ in 0..r.range(1, 2) {
        w.peer_env(&[("VH_DELAY", format!("{},500,{}", r.pick(&[0, 20]), r.u64() >> 1))]);
    }
    let hosts = w.hosts();
    let mut stable = vec![];
    for i in 0..r.range(1, 4) {
        let h = r.pick(&hosts).clone();
        let ep = w.join(&h, &[], |j| j.aff = i == 0);
        stable.push((ep, h));
    }
    let crowd = r.pct(30);
    let size = *r.pick(&[1500, 1500, 9000]);
    // All of them wait when it joins
    let after = r.pct(50);
    for k in 0..4 {
        let l = format!("late{k}");
        let uni = *r.pick(&[0, 100, 50]);
        let mut bs = vec![];
        for _ in 0..r.range(1, 4) {
            let (ep, h) = r.pick(&stable).clone();
            let n = if k == 0 && crowd { r.range(size / 4, size) } else { r.range(5, 60) } as u32;
            let mut b = w.burst(ep, n, vec![Op::leaf(&l)]);
            b.ttls_ms = vec![3_600_000];
            crate::traffic::spice(&mut b, &mut r);
            b.uni_pct = uni;
            b.barrier = false;
            b.gap_us = *r.pick(&[0, 20, 200]);
            bs.push((h, b));
        }
        let h = r.pick(&hosts).clone();
        let spec = w.spec(&h, &[l.clone()], |j| j.aff = false);
        let ep = spec.ep;
        let t = {
            let h = h.clone();
            let d = if k == 0 && crowd { r.range(100, 200) * 1000 } else { r.below(3000) };
            std::thread::spawn(move || {
                sleep_us(d);
                if k == 0 && crowd && after {
                    return Some(spec);
                }
                h.must_join(spec);
                None
            })
        };
        let ends = w.bursts(bs);
        if let Some(spec) = t.join().unwrap() {
            OUT.max("waiting_before", ends.values().map(|n| *n as u64).sum());
            h.must_join(spec);
        }
        let want: BTreeSet<(u32, u32)> = ends.iter().flat_map(|(s, n)| (0..*n).map(move |q| (*s, q))).collect();
        let mut missing = want.clone();
        let mut from = 0;
        let mut last_news = now_ns();
        reset_overshoot();
        while !missing.is_empty() {
            if w.poll() > 0 {
                last_news = now_ns();
            }
            for ev in &w.evs[from..] {
                if let Ev::R { ep: e, sid, seq, .. } = ev {
                    if *e == ep {
                        missing.remove(&(*sid, *seq));
                    }
                }
            }
            from = w.evs.len();
            if now_ns() - last_news > 8_000_000_000 {
                if worst_overshoot_ms() < 1500 {
                    OUT.violation("ttl:lost", format!("{} of {} messages that wait for {l} for an hour did not arrive, e.g. {:?}", missing.len(), want.len(), missing.iter().next()));
                } else {
                    OUT.inconclusive("machine stalled");
                }
                OUT.finish();
            }
            sleep_us(500);
        }
        OUT.count("delivered_late", want.len() as u64);
        OUT.max("waiting_for_one", want.len() as u64);
        h.get(Cmd::Drop(ep));
    }
    // Order, duplicates, phantoms
    w.check(&crate::model::Rules {
        no_must: true,
        ..Default::default()
    });
    w.check_badclose();
}
