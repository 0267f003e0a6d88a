//! C30: received messages are passed on, to the same or another bus.
use crate::msg::*;
use crate::node::*;
use crate::util::*;
use crate::world::*;
use ipmb::{EndpointReceiver, EndpointSender, MessageBox};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

fn options(ident: &str, label: &[String], aff: bool) -> ipmb::Options {
    let mut o = ipmb::Options::new(ident, mk_label(label), "tok");
    o.controller_affinity = aff;
    o
}

/// What some of those that pass a message on do to its attachments.
fn edit<O>(v: &mut Vec<O>, dup: impl FnOnce(&O) -> O) {
    match v.len() {
        0 => {}
        1 => v.push(dup(&v[0])),
        n if n % 2 == 0 => {
            v.remove(0);
        }
        _ => v.rotate_left(1),
    }
}

fn pass<T: MessageBox>(mut rx: EndpointReceiver<T>, tx: EndpointSender<T>, hoard: bool, edits: bool, seed: u64) {
    std::thread::spawn(move || {
        let mut r = Rng::new(seed);
        let mut kept = vec![];
        loop {
            match rx.recv(Some(ms(20))) {
                Ok(m) => {
                    kept.push(m);
                    // At once, or several of them in a row
                    if hoard && r.pct(60) && kept.len() < 30 {
                        continue;
                    }
                }
                Err(_) if kept.is_empty() => continue,
                Err(_) => {}
            }
            for mut m in kept.drain(..) {
                if edits {
                    edit(&mut m.objects, |o| o.clone().unwrap());
                    edit(&mut m.memory_regions, |x| x.clone().unwrap());
                }
                if let Err(e) = tx.send(m) {
                    eprintln!("HARNESS pass: {e}");
                    std::process::abort();
                }
            }
        }
    });
}

/// A process receives from one bus and sends to the next.
pub fn ext(_node: &Arc<Node>, _name: &str, v: Value) -> Value {
    let from = options(v["a"].as_str().unwrap(), &strs(&["gw"]), v["aff_a"] == true);
    let to = options(v["b"].as_str().unwrap(), &strs(&["x"]), v["aff_b"] == true);
    let (hoard, edits, seed) = (v["hoard"] == true, v["edits"] == true, v["seed"].as_u64().unwrap());
    macro_rules! go {
        ($t:ty) => {{
            let a = ipmb::join::<$t, $t>(from, Some(ms(30_000)));
            let b = ipmb::join::<$t, $t>(to, Some(ms(30_000)));
            match (a, b) {
                (Ok((atx, rx)), Ok((tx, brx))) => {
                    // They stay on the bus
                    std::mem::forget(atx);
                    drop(brx);
                    pass(rx, tx, hoard, edits, seed);
                    json!({})
                }
                _ => json!({"err": "join"}),
            }
        }};
    }
    if v["any"] == true {
        go!(SBox)
    } else {
        go!(In)
    }
}

pub fn passed_on(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 30]);
    if r.pct(30) {
        crate::shim::set_delay(10, 300, seed);
    }
    let hops = r.range(1, 3);
    let idents: Vec<String> = (0..=hops).map(|i| format!("{}-{i}", w.ident)).collect();
    let last = idents[hops as usize].clone();
    let (src, dst) = if r.pct(50) { (w.here(), w.peer()) } else { (w.peer(), w.here()) };
    let on = |ident: &str, label: &[&str], ep: u32, aff: bool| JoinSpec::new(ep, ident, label).manual().aff(aff);
    // Somebody sends
    let sender = w.ep(&src);
    let first = r.pct(70);
    src.must_join(on(&idents[0], &["s"], sender, true));
    // Somebody on the last bus is there before the gateways, or the last gateway hosts its controller
    let pool = strs(&["a", "b", "c"]);
    struct End {
        ep: u32,
        h: Host,
        set: BTreeSet<String>,
    }
    let mut ends: Vec<End> = vec![];
    macro_rules! end {
        ($extra:expr) => {{
            let mut label: Vec<String> = pool.iter().filter(|_| r.pct(50)).cloned().collect();
            label.push("end".into());
            let extra: Option<String> = $extra;
            label.extend(extra);
            let h = if r.pct(50) { src.clone() } else { dst.clone() };
            let ep = w.ep(&h);
            let l: Vec<&str> = label.iter().map(|s| s.as_str()).collect();
            let aff = ends.is_empty() || r.pct(50);
            h.must_join(on(&last, &l, ep, aff));
            ends.push(End { ep, h, set: set_of(&label) });
        }};
    }
    if first {
        end!(None);
    }
    let mut edited = 0;
    for i in 0..hops as usize {
        let h = w.peer();
        let edits = r.pct(40);
        edited += edits as u32;
        let v = h.get(Cmd::Ext(
            "pass.start".into(),
            json!({"a": idents[i], "b": idents[i + 1], "aff_a": r.pct(50), "aff_b": true, "any": r.pct(50), "hoard": r.pct(50), "edits": edits, "seed": r.u64() >> 1}),
        ));
        if !v["err"].is_null() {
            OUT.violation("pass:join", format!("{v}"));
            return;
        }
    }
    for _ in 0..r.range(1, 3) {
        end!(None);
    }
    let sid = w.sid();
    let mut seq = 0;
    let mut next_id = 1u32;
    let mut kept: Vec<u32> = vec![];
    let mut mine: Vec<u32> = vec![];
    struct Sent {
        uni: bool,
        op: Op,
        objects: Vec<Value>,
        regions: Vec<(u64, u64, Value)>,
    }
    let e = |h: &Host, name: &str, v: Value| h.get(Cmd::Ext(name.into(), v));
    for round in 0..r.range(2, 4) {
        let mut sent: BTreeMap<u32, Sent> = BTreeMap::new();
        let late = format!("late{round}");
        // Sent, waiting for a long time, waiting for too short a time
        let (mut waits, mut gone) = (vec![], vec![]);
        let n = r.range(5, 25);
        // Nobody receives before all of them are sent
        let mut room = 45_000;
        for k in 0..=n {
            let barrier = k == n;
            let fate = r.below(10);
            let what = if barrier {
                Op::leaf("end")
            } else if fate < 2 {
                Op::leaf(&late)
            } else {
                Op::A(Box::new(Op::leaf("end")), Box::new(Op::random(&mut r, &pool, 3)))
            };
            let op = Op::O(Box::new(Op::leaf("gw")), Box::new(what));
            let mut m = SendSpec::new(sender, sid, seq, op.clone());
            m.uni = !barrier && r.pct(40);
            m.len = *r.pick(&[0, 1, 100, 3000, 30_000]);
            m.len = if m.len > room { 50 } else { m.len };
            room = room.saturating_sub(m.len);
            m.kind = (k % 7) as u8;
            let short = fate < 2 && r.pct(40);
            m.ttl_ns = if fate < 2 {
                if short { *r.pick(&[0, 1, 1_000_000, 20_000_000]) } else { 3_600_000_000_000 }
            } else {
                *r.pick(&[0, 0, 1_000_000])
            };
            let mut s = Sent { uni: m.uni, op, objects: vec![], regions: vec![] };
            if !short && r.pct(40) {
                for _ in 0..r.below(4) {
                    let i = next_id;
                    next_id += 1;
                    let kind = *r.pick(&["pipe", "sock", "memfd", "file", "eventfd"]);
                    s.objects.push(e(&src, "obj.make", json!({"id": i, "kind": kind, "salt": i})));
                    m.objects.push(i);
                    if kind == "pipe" || kind == "sock" {
                        kept.push(i);
                    }
                }
                for _ in 0..r.below(3) {
                    let i = next_id;
                    next_id += 2;
                    let (size, fill) = (r.range(1, 9000), r.u64());
                    e(&src, "mr.new", json!({"id": i, "size": size}));
                    e(&src, "mr.map", json!({"id": i, "lo": ["u"], "hi": ["u"], "write": fill}));
                    s.regions.push((size, hash(&Rng::new(fill).fill(size as usize)), e(&src, "mr.ino", json!({"id": i}))));
                    e(&src, "mr.clone", json!({"id": i, "to": i + 1}));
                    mine.push(i + 1);
                    m.regions.push(i);
                }
            }
            OUT.count("passed_on", 1);
            if fate < 2 && !barrier {
                if short { &mut gone } else { &mut waits }.push(seq);
            }
            src.send(m);
            for _ in 0..edited {
                OUT.count("edited", (s.objects.len() + s.regions.len() > 0) as u64);
                edit(&mut s.objects, |x| x.clone());
                edit(&mut s.regions, |x| x.clone());
            }
            sent.insert(seq, s);
            seq += 1;
        }
        let barrier = seq - 1;
        let drain = |x: &End, until: Option<u32>, next_id: &mut u32| -> Option<Vec<u32>> {
            let mut got: Vec<u32> = vec![];
            loop {
                let hold = *next_id;
                *next_id += 20;
                let v = x.h.recv(x.ep, if until.is_some() { 15_000 } else { 60 }, hold);
                if v["err"] == "timeout" && until.is_none() {
                    return Some(got);
                }
                if !v["err"].is_null() {
                    if v["err"] == "timeout" && worst_overshoot_ms() >= 1500 {
                        OUT.inconclusive("a message passed on has not arrived, the machine stalled");
                    } else {
                        OUT.violation("pass:lost", format!("endpoint {}: {v} instead of {until:?}, after {got:?}", x.ep));
                    }
                    return None;
                }
                let q = v["seq"].as_u64().unwrap() as u32;
                let what = format!("message {q} at endpoint {} after {hops} hops: {v}", x.ep);
                let s = match sent.get(&q) {
                    Some(s) => s,
                    None => {
                        OUT.violation("pass:phantom", what);
                        return None;
                    }
                };
                if v["ok"] != true || v["k"] != "V" || v["sid"] != sid {
                    OUT.violation("pass:payload", what);
                    return None;
                }
                let (no, nr) = (s.objects.len() as u32, s.regions.len() as u32);
                if v["objects"] != no || v["regions"] != nr {
                    OUT.violation("pass:attachments", format!("{what} instead of {no} and {nr}"));
                    return None;
                }
                let ids: Vec<u32> = (hold..hold + no).collect();
                let st = x.h.get(Cmd::Ext("obj.stat".into(), json!({"ids": ids})));
                for (a, b) in st.as_array().unwrap().iter().zip(&s.objects) {
                    for key in ["dev", "ino", "mode", "size", "flags", "pos", "counter"] {
                        if a[key] != b[key] || !a["bad"].is_null() {
                            OUT.violation("pass:identity", format!("{what}: object is {a}, was {b}"));
                            return None;
                        }
                    }
                    OUT.count("objects_compared", 1);
                }
                x.h.get(Cmd::Ext("obj.drop".into(), json!({"ids": ids})));
                for (k, (size, content, ino)) in s.regions.iter().enumerate() {
                    let id = hold + k as u32;
                    let sz = x.h.get(Cmd::Ext("mr.size".into(), json!({"id": id})));
                    let v = x.h.get(Cmd::Ext("mr.map".into(), json!({"id": id, "lo": ["u"], "hi": ["u"]})));
                    let i = x.h.get(Cmd::Ext("mr.ino".into(), json!({"id": id})));
                    if sz != *size || v["before"] != *content || i != *ino {
                        OUT.violation("pass:region", format!("{what}: region {k} is {sz} {v} {i}, was {size} {content} {ino}"));
                        return None;
                    }
                    x.h.get(Cmd::Ext("mr.drop".into(), json!({"id": id})));
                    OUT.count("regions_compared", 1);
                }
                got.push(q);
                if Some(q) == until {
                    return Some(got);
                }
            }
        };
        reset_overshoot();
        let mut got = vec![];
        for x in &ends {
            match drain(x, Some(barrier), &mut next_id) {
                Some(v) => got.push(v),
                None => return,
            }
        }
        for (q, s) in &sent {
            if waits.contains(q) || gone.contains(q) {
                continue;
            }
            let want: BTreeSet<u32> = ends.iter().filter(|x| s.op.eval(&x.set)).map(|x| x.ep).collect();
            let have: Vec<u32> = ends.iter().zip(&got).flat_map(|(x, g)| g.iter().filter(|y| *y == q).map(move |_| x.ep)).collect();
            let set: BTreeSet<u32> = have.iter().copied().collect();
            let fine = if s.uni {
                have.len() == want.len().min(1) && set.is_subset(&want)
            } else {
                have.len() == want.len() && set == want
            };
            if !fine {
                OUT.violation(
                    "pass:routing",
                    format!("{} {q} to {:?} passed on {hops} times: received by {have:?}, matching {want:?}", if s.uni { "unicast" } else { "multicast" }, s.op),
                );
                return;
            }
            OUT.count("deliveries_compared", have.len() as u64);
        }
        for g in &got {
            if g.windows(2).any(|p| p[0] >= p[1]) {
                OUT.violation("pass:order", format!("{g:?}"));
                return;
            }
        }
        // Those that wait still know for how long
        sleep_ms(30);
        end!(Some(late));
        let x = ends.last().unwrap();
        // What has waited comes before what is sent now
        let q = seq;
        seq += 1;
        let op = Op::O(Box::new(Op::leaf("gw")), Box::new(Op::leaf("end")));
        sent.insert(q, Sent { uni: false, op: op.clone(), objects: vec![], regions: vec![] });
        src.send(SendSpec::new(sender, sid, q, op));
        let drain = |x: &End, next_id: &mut u32| -> Option<Vec<u32>> {
            let mut got = vec![];
            loop {
                let hold = *next_id;
                *next_id += 20;
                let v = x.h.recv(x.ep, 15_000, hold);
                if !v["err"].is_null() {
                    if worst_overshoot_ms() >= 1500 {
                        OUT.inconclusive("a message passed on has not arrived, the machine stalled");
                    } else {
                        OUT.violation("pass:lost", format!("endpoint {}: {v} after {got:?}", x.ep));
                    }
                    return None;
                }
                let (no, nr) = (v["objects"].as_u64().unwrap() as u32, v["regions"].as_u64().unwrap() as u32);
                let ids: Vec<u32> = (hold..hold + no).collect();
                x.h.get(Cmd::Ext("obj.drop".into(), json!({"ids": ids})));
                for k in 0..nr {
                    x.h.get(Cmd::Ext("mr.drop".into(), json!({"id": hold + k})));
                }
                let n = v["seq"].as_u64().unwrap() as u32;
                got.push((n, no, nr));
                if n == q {
                    got.pop();
                    for (n, no, nr) in &got {
                        let s = &sent[n];
                        if *no != s.objects.len() as u32 || *nr != s.regions.len() as u32 {
                            OUT.violation("pass:attachments", format!("{no} and {nr} with {n}, which has waited"));
                        }
                    }
                    return Some(got.into_iter().map(|x| x.0).collect());
                }
            }
        };
        for (k, x) in ends.iter().enumerate() {
            let g = match drain(x, &mut next_id) {
                Some(g) => g,
                None => return,
            };
            if k + 1 == ends.len() {
                if g != waits {
                    OUT.violation("pass:time to live", format!("{waits:?} wait for the endpoint that joined, it received {g:?} ({gone:?} must have expired)"));
                    return;
                }
            } else if !g.is_empty() {
                OUT.violation("pass:phantom", format!("{g:?} at endpoint {}", x.ep));
                return;
            }
        }
        OUT.count("waited", waits.len() as u64);
        OUT.count("expired", gone.len() as u64);
        let _ = x;
    }
    // Nobody on the way keeps anything
    let start = now_ns();
    reset_overshoot();
    loop {
        let open = e(&src, "obj.open", json!({"ids": kept}));
        let counts: Vec<u64> = mine.iter().map(|i| e(&src, "mr.count", json!({"id": i})).as_u64().unwrap()).collect();
        if open.as_array().unwrap().is_empty() && counts.iter().all(|c| *c == 1) {
            break;
        }
        if now_ns() - start > 8_000_000_000 {
            if worst_overshoot_ms() >= 1500 {
                OUT.inconclusive("attachments still held, the machine stalled");
            } else {
                OUT.violation("pass:leak", format!("objects {open} are still open, the counts of the regions are {counts:?}"));
            }
            return;
        }
        // The next traffic lets go of what has expired
        let s = SendSpec::new(sender, sid, seq, Op::leaf("gw"));
        seq += 1;
        src.send(s);
        sleep_ms(10);
    }
    OUT.count("leak_checked", (kept.len() + mine.len()) as u64);
    w.check_badclose();
    OUT.distinct(format!("{hops}:{first}:{seq}:{:x}", crate::shim::trace()));
    OUT.sample(json!({"buses": idents, "messages": seq}));
}
