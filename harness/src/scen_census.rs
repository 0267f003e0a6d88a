//! C20: what the participants of a bus hold, after everything has gone.
use crate::node::*;
use crate::raw;
use crate::util::*;
use crate::world::*;
use serde_json::{json, Value};
use std::os::fd::AsRawFd;

/// Descriptors by kind, mappings, threads, bytes of heap in use.
fn resources(h: &Host) -> (Vec<u64>, Value) {
    let v = h.get(Cmd::Census);
    let n = v["fds"].as_array().map(|a| a.len()).unwrap_or(0) as u64;
    (
        vec![n, v["memfd_maps"].as_u64().unwrap(), v["threads"].as_u64().unwrap()],
        v,
    )
}

/// Waits until the process holds no more than that.
fn back_to(what: &str, h: &Host, base: &[u64], base_v: &Value, sig: &str) -> bool {
    let start = now_ns();
    reset_overshoot();
    loop {
        let (now, v) = resources(h);
        if now.iter().zip(base).all(|(n, b)| n <= b) {
            OUT.count("censuses", 1);
            return true;
        }
        if now_ns() - start > 8_000_000_000 {
            if worst_overshoot_ms() > 1500 {
                OUT.inconclusive("machine stalled");
                return false;
            }
            let fds = |v: &Value| -> Vec<String> { v["fds"].as_array().unwrap().iter().map(|f| f.as_str().unwrap().to_owned()).collect() };
            let old = fds(base_v);
            let new: Vec<String> = fds(&v).into_iter().filter(|f| !old.contains(f)).take(8).collect();
            OUT.violation(
                format!("leak:{sig}"),
                format!("{what}: (descriptors, memfd mappings, threads) {base:?} before, {now:?} after; new {new:?}"),
            );
            return false;
        }
        sleep_ms(10);
    }
}

struct Census {
    w: World,
    r: Rng,
    ctl: Host,
    ctl_ep: u32,
    wit: u32,
    obj: u32,
    sid: u32,
    seq: u32,
}

impl Census {
    fn send(&mut self, h: &Host, ep: u32, s: SendSpec) {
        let mut s = s;
        s.ep = ep;
        s.sid = self.sid;
        s.seq = self.seq;
        self.seq += 1;
        h.send(s);
    }

    /// Some object or region held by the host.
    fn thing(&mut self, h: &Host) -> (u32, bool) {
        self.obj += 1;
        let i = self.obj;
        if self.r.pct(50) {
            let kind = *self.r.pick(&["pipe", "sock", "memfd", "eventfd", "file"]);
            h.get(Cmd::Ext("obj.make".into(), json!({"id": i, "kind": kind, "salt": i})));
            h.get(Cmd::Ext("obj.forget".into(), json!({"ids": [i]})));
            (i, true)
        } else {
            h.get(Cmd::Ext("mr.new".into(), json!({"id": i, "size": 4096 * (1 + i % 3)})));
            if self.r.pct(50) {
                h.get(Cmd::Ext("mr.map".into(), json!({"id": i, "lo": ["u"], "hi": ["u"], "write": 1})));
            }
            (i, false)
        }
    }

    fn attached(&mut self, h: &Host, mut s: SendSpec) -> SendSpec {
        for _ in 0..self.r.below(4) {
            let (i, o) = self.thing(h);
            if o {
                s.objects.push(i);
            } else {
                s.regions.push(i);
            }
        }
        s
    }

    /// One stay on the bus, from the join to the departure.
    fn visit(&mut self, h: &Host, may_kill: bool) -> bool {
        let manual = self.r.pct(40);
        let ep = self.w.join(h, &strs(&["v"]), |j| {
            j.aff = false;
            j.auto = !manual;
            j.rx_timeout_ms = Some(2);
        });
        OUT.count("visits", 1);
        for _ in 0..self.r.below(6) {
            let s = SendSpec::new(ep, 0, 0, Op::F).len(*self.r.pick(&[0, 100, 3000]));
            let mut s = self.attached(h, s);
            match self.r.below(7) {
                0 => s.op = Op::leaf("ctl"),
                1 => s.op = Op::leaf("v"),
                2 => s.op = Op::T,
                3 => s.op = Op::leaf("nobody"),
                4 => {
                    // Waits for somebody, in vain
                    s.op = Op::leaf("nobody");
                    s.ttl_ns = *self.r.pick(&[1_000_000, 500_000_000, 20_000_000_000]);
                }
                5 => {
                    // Cannot be decoded by anyone, or not by the type it claims
                    s.op = Op::T;
                    s.raw = Some((
                        *self.r.pick(&[[7u8; 16], *b"\x2b\x1b\x0a\x54\x07\xa2\x4a\x51\x9e\x0f\x2f\x0c\x7c\xc9\xd0\x01"]),
                        vec![255; 5],
                    ));
                    s.len = 0;
                }
                _ => {
                    s.op = Op::leaf("v");
                    s.uni = true;
                }
            }
            self.send(h, ep, s);
            OUT.count("messages_sent", 1);
        }
        if manual {
            for _ in 0..self.r.below(5) {
                self.obj += 10;
                let i = self.obj;
                let v = h.get(Cmd::Recv { ep, timeout_ns: Some(2_000_000), hold: i });
                let (no, nr) = (v["objects"].as_u64().unwrap_or(0), v["regions"].as_u64().unwrap_or(0));
                let ids: Vec<u64> = (0..no).map(|k| i as u64 + k).collect();
                h.get(Cmd::Ext("obj.drop".into(), json!({"ids": ids})));
                for k in 0..nr {
                    h.get(Cmd::Ext("mr.drop".into(), json!({"id": i as u64 + k})));
                }
            }
        }
        match self.r.below(if may_kill { 5 } else { 4 }) {
            0 => {
                h.get(Cmd::CloseRx(ep));
                if self.r.pct(50) {
                    let s = SendSpec::new(ep, 0, 0, Op::leaf("ctl"));
                    let s = self.attached(h, s);
                    self.send(h, ep, s);
                }
                h.get(Cmd::Drop(ep));
            }
            1 => {
                h.get(Cmd::DropTx(ep));
                h.get(Cmd::Drop(ep));
            }
            4 => {
                h.peer().kill();
                OUT.count("kills", 1);
                return false;
            }
            _ => {
                h.get(Cmd::Drop(ep));
            }
        }
        true
    }

    /// A connection that does not become an endpoint.
    fn stray(&mut self, h: &Host, frame: &[u8]) {
        match self.r.below(6) {
            0 => {
                let ep = self.w.ep(h);
                let j = JoinSpec::new(ep, &self.w.ident.clone(), &["x"]).token("wrong").aff(false).manual();
                let v = h.join(j);
                if v["err"] != "token" {
                    OUT.violation("join:wrong token", format!("{v}"));
                }
            }
            1 => drop(raw::connect(&self.w.ident)),
            2 => {
                if let Some(c) = raw::connect(&self.w.ident) {
                    let _ = raw::send(c.as_raw_fd(), &frame[..self.r.below(frame.len() as u64) as usize], &[], 0);
                }
            }
            3 => {
                // Goes away while it is being accepted
                if let Some(x) = raw::Raw::shake(&self.w.ident, frame) {
                    if self.r.pct(50) {
                        drop(x.read);
                        drop(x.conn);
                    } else {
                        drop(x.conn);
                        sleep_us(self.r.below(500));
                        drop(x.read);
                    }
                }
            }
            4 => {
                // Accepted, then only one half is closed
                if let Some(x) = raw::Raw::shake(&self.w.ident, frame) {
                    raw::recv(x.read.as_raw_fd(), 2000);
                    drop(x.read);
                    sleep_us(self.r.below(500));
                }
            }
            _ => {
                // Descriptors and bytes that are no message
                if let Some(c) = raw::connect(&self.w.ident) {
                    let (a, b) = raw::pair();
                    let n = self.r.below(200) as usize;
                    let d = self.r.fill(n + 1);
                    let _ = raw::send(c.as_raw_fd(), &d, &[a.as_raw_fd(), b.as_raw_fd()], 0);
                }
            }
        }
        OUT.count("strays", 1);
    }

    /// The periodic chance to notice who has gone.
    fn period(&mut self) {
        let ctl = self.ctl.clone();
        // At once, or in steps with traffic in between that never pauses for long
        let steps = if self.r.pct(50) {
            vec![31_000_000_000; 2]
        } else {
            OUT.count("busy_periods", 1);
            (0..self.r.range(13, 30)).map(|_| self.r.range(5_000_000_000, 29_000_000_000)).collect()
        };
        for d in steps {
            ctl.get(Cmd::ClockAdd(d));
            for op in ["wit", "ctl"] {
                self.send(&ctl, self.ctl_ep, SendSpec::new(0, 0, 0, Op::leaf(op)));
            }
        }
        // All of that has been handled when this one has arrived
        let seq = self.seq;
        self.send(&ctl, self.ctl_ep, SendSpec::new(0, 0, 0, Op::leaf("wit")));
        let wit = self.wit;
        let here = self.w.here();
        loop {
            let v = must_return("recv of the witness", 30, || here.get(Cmd::Recv { ep: wit, timeout_ns: None, hold: 1 }));
            if v["seq"] == seq {
                break;
            }
        }
    }
}

fn begin(seed: u64, tag: u64) -> (Census, Host) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, tag]);
    if !crate::shim::loaded() {
        harness_error("the clock of the controller must be movable");
    }
    let ctl = w.peer();
    let q = w.peer();
    if r.pct(30) {
        crate::shim::set_delay(5, 300, seed);
    }
    let ctl_ep = w.join(&ctl, &strs(&["ctl"]), |_| {});
    let here = w.here();
    let wit = w.join(&here, &strs(&["wit"]), |j| {
        j.aff = false;
        j.auto = false;
    });
    let sid = w.sid();
    let mut c = Census { w, r, ctl, ctl_ep, wit, obj: 100, sid, seq: 0 };
    if c.r.pct(50) {
        // Messages that nobody comes for wait all the while
        for _ in 0..c.r.range(1, 5) {
            let len = c.r.below(2000) as u32;
            let mut s = SendSpec::new(0, 0, 0, Op::leaf("somebody who never comes")).len(len);
            s.uni = c.r.pct(50);
            s.ttl_ns = *c.r.pick(&[86_400_000_000_000, 30 * 86_400_000_000_000, u64::MAX]);
            let (t, e) = (c.ctl.clone(), c.ctl_ep);
            c.send(&t, e, s);
        }
        OUT.count("with_waiting_messages", 1);
    }
    (c, q)
}

/// Witness and controller endpoint get rid of whatever they were sent.
fn drain(c: &mut Census) {
    let here = c.w.here();
    let wit = c.wit;
    loop {
        let v = here.get(Cmd::Recv { ep: wit, timeout_ns: Some(20_000_000), hold: 1_000_000 });
        if v["err"] == "timeout" {
            break;
        }
        let mut held = c.w.here.held.lock().unwrap();
        held.objects.retain(|k, _| *k < 1_000_000);
        held.regions.retain(|k, _| *k < 1_000_000);
    }
}

pub fn census(seed: u64) {
    let (mut c, q) = begin(seed, 20);
    let (frame, _) = raw::record_connect(&c.w.ident, &strs(&["v"]), "tok");
    let here = c.w.here();
    // Whatever is allocated once and for all
    c.visit(&q, false);
    for _ in 0..3 {
        c.stray(&q, &frame);
    }
    drain(&mut c);
    c.period();
    sleep_ms(20);
    drain(&mut c);
    c.period();
    let ctl = c.ctl.clone();
    let (b_ctl, v_ctl) = resources(&ctl);
    let (b_q, v_q) = resources(&q);
    let (b_here, v_here) = resources(&here);
    let mut spare = vec![];
    for _ in 0..c.r.below(3) {
        spare.push(c.w.peer());
    }
    let rounds = c.r.range(2, 5);
    for _ in 0..rounds {
        let visitor = q.clone();
        for _ in 0..c.r.range(1, 6) {
            match c.r.below(4) {
                0 => c.stray(&visitor, &frame),
                1 if !spare.is_empty() => {
                    let h = spare[0].clone();
                    if !c.visit(&h, true) {
                        spare.remove(0);
                    }
                }
                _ => {
                    c.visit(&visitor, false);
                }
            }
            drain(&mut c);
        }
    }
    drain(&mut c);
    c.period();
    // Spare processes were started from here: their pipes are ours
    drop(spare);
    c.w.peers.truncate(2);
    drain(&mut c);
    let (now_here, v_now) = {
        let start = now_ns();
        loop {
            let x = resources(&here);
            // threads that wait for a peer's death and the like are not the library's
            if x.0[0] <= b_here[0] || now_ns() - start > 3_000_000_000 {
                break x;
            }
            sleep_ms(10);
        }
    };
    let _ = (now_here, v_now, v_here);
    back_to("the controller's process", &ctl, &b_ctl, &v_ctl, "controller");
    back_to("a visitor's process", &q, &b_q, &v_q, "visitor");
    c.w.check_badclose();
    OUT.distinct(format!("{:?} {rounds}", c.seq));
    OUT.sample(json!({"seed": seed, "rounds": rounds, "controller": v_ctl, "visitor": v_q}));
}

fn heap(h: &Host) -> i64 {
    h.get(Cmd::Ext("heap".into(), json!({})))["used"].as_i64().unwrap()
}

/// The heap of a controller and of a visitor over many stays of the same kind.
pub fn heap_growth(seed: u64) {
    let (mut c, q) = begin(seed, 201);
    let (frame, _) = raw::record_connect(&c.w.ident, &strs(&["v"]), "tok");
    let ctl = c.ctl.clone();
    let n = 50;
    let what = c.r.below(5);
    let mut sizes = 0;
    let mut last = None;
    let mut grown = vec![];
    for _ in 0..5 {
        for _ in 0..n {
            match what {
                0 => {
                    c.visit(&q, false);
                }
                1 => {
                    // Comes and goes without a word
                    let q2 = q.clone();
                    let ep = c.w.join(&q2, &strs(&["v", "a label that is too long to be stored without an allocation"]), |j| {
                        j.aff = false;
                        j.rx_timeout_ms = Some(2);
                    });
                    q.get(Cmd::Drop(ep));
                    OUT.count("visits", 1);
                }
                2 => {
                    let q2 = q.clone();
                    c.stray(&q2, &frame);
                }
                3 => {
                    q.get(Cmd::Ext("reg.sizes".into(), json!({"from": sizes, "n": 3})));
                    sizes += 3;
                    OUT.count("sizes_allocated", 3);
                }
                _ => {
                    // Messages to nobody and everybody from one endpoint
                    for op in ["nobody", "ctl", "wit"] {
                        let mut s = SendSpec::new(0, 0, 0, Op::leaf(op)).len(200);
                        s.ttl_ns = 1_000_000;
                        let (t, e) = (c.ctl.clone(), c.ctl_ep);
                        c.send(&t, e, s);
                        OUT.count("messages_sent", 1);
                    }
                }
            }
            drain_some(&mut c);
        }
        drain(&mut c);
        c.period();
        if what == 3 {
            q.get(Cmd::Ext("reg.sizes".into(), json!({"from": 0, "n": 0, "maintain": true})));
        }
        sleep_ms(60);
        let now = (heap(&ctl), heap(&q));
        if let Some((a, b)) = last {
            grown.push((now.0 - a, now.1 - b));
        }
        last = Some(now);
        OUT.count("heaps_measured", 2);
    }
    // The first step may still fill caches; a leak shows in every one
    for (who, v) in [("controller", grown.iter().map(|g| g.0).collect::<Vec<_>>()), ("visitor", grown.iter().map(|g| g.1).collect())] {
        let least = v[1..].iter().copied().min().unwrap();
        OUT.max(&format!("least_growth_{who}"), least.max(0) as u64);
        if least >= 8 * n {
            OUT.violation(format!("leak:heap of the {who}"), format!("grows by {v:?} bytes per {n} steps of kind {what}"));
        }
    }
    OUT.distinct(format!("heap {what} {seed}"));
    OUT.sample(json!({"seed": seed, "kind": what, "growth": format!("{grown:?}")}));
}

fn drain_some(c: &mut Census) {
    let here = c.w.here();
    let wit = c.wit;
    loop {
        let v = here.get(Cmd::Recv { ep: wit, timeout_ns: Some(0), hold: 1_000_000 });
        if v["err"] == "timeout" {
            break;
        }
        let mut held = c.w.here.held.lock().unwrap();
        held.objects.retain(|k, _| *k < 1_000_000);
        held.regions.retain(|k, _| *k < 1_000_000);
    }
}

/// What a survivor holds after the controller has died, again and again.
pub fn census_loss(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 202]);
    let q = w.peer();
    let mut sid = w.sid();
    let mut ctl = w.peer();
    let mut seq = 0;
    w.join(&ctl, &strs(&["c"]), |j| j.rx_timeout_ms = Some(20));
    let blocking = r.pct(50);
    let eps: Vec<u32> = (0..r.range(1, 3))
        .map(|i| {
            w.join(&q, &strs(&["q"]), |j| {
                j.aff = false;
                j.rx_timeout_ms = if blocking && i > 0 { None } else { Some(20) };
            })
        })
        .collect();
    let mut base: Option<(Vec<u64>, Value)> = None;
    let n = r.range(3, 5);
    for round in 0..n {
        // The next one
        let next = w.peer();
        let ne = w.join(&next, &strs(&["c"]), |j| j.rx_timeout_ms = Some(20));
        if round > 0 || r.pct(50) {
            let kill_late = r.pct(50);
            if kill_late {
                sleep_us(r.below(3000));
            }
            ctl.peer().kill();
            OUT.count("controller_deaths", 1);
        }
        // Until everyone is heard of again
        let start = now_ns();
        reset_overshoot();
        let mut missing: Vec<u32> = eps.clone();
        while !missing.is_empty() {
            for ep in missing.clone() {
                let h = q.clone();
                let s = SendSpec::new(ep, sid, seq, Op::leaf("c"));
                seq += 1;
                std::thread::spawn(move || h.call(Cmd::Send(s)).is_ok()).join().unwrap();
            }
            sleep_ms(20);
            w.poll();
            let seen: Vec<u32> = w
                .evs
                .iter()
                .filter_map(|e| match e {
                    Ev::R { ep, sid: s, seq, .. } if *ep == ne && *s == sid => Some(*seq),
                    _ => None,
                })
                .collect();
            let from = |seq: u32| {
                w.evs.iter().find_map(|e| match e {
                    Ev::S { sid: s, seq: x, ep, .. } if *s == sid && *x == seq => Some(*ep),
                    _ => None,
                })
            };
            let heard: Vec<u32> = seen.iter().filter_map(|s| from(*s)).collect();
            missing.retain(|e| !heard.contains(e));
            if now_ns() - start > 30_000_000_000 {
                if worst_overshoot_ms() < 1500 {
                    OUT.violation("loss:not reformed", format!("endpoints {missing:?} are not heard of 30 s after the controller died"));
                } else {
                    OUT.inconclusive("machine stalled");
                }
                return;
            }
        }
        sid = w.sid();
        seq = 0;
        OUT.count("reformed", 1);
        ctl = next;
        let now = {
            let start = now_ns();
            loop {
                let x = resources(&q);
                let enough = base.as_ref().map_or(now_ns() - start > 200_000_000, |b| {
                    x.0.iter().zip(&b.0).all(|(n, b)| n <= b)
                });
                if enough || now_ns() - start > 4_000_000_000 {
                    break x;
                }
                sleep_ms(20);
            }
        };
        match &base {
            None if round > 0 => base = Some(now),
            None => {}
            Some((b, v)) => {
                back_to("a survivor of its controller", &q, b, v, "survivor");
            }
        }
    }
    OUT.distinct(format!("{seed} {n} {blocking}"));
}
