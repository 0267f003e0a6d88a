//! C07, C08, C09: kernel objects and memory regions that travel with messages.
use crate::node::*;
use crate::util::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

/// An endpoint that is received from by hand.
#[derive(Clone)]
struct E {
    ep: u32,
    h: Host,
    set: BTreeSet<String>,
    decodes: bool,
    open: bool,
}

struct S {
    w: World,
    r: Rng,
    pool: Vec<String>,
    es: Vec<E>,
    next_id: u32,
    sid: u32,
    seq: u32,
}

fn ext(h: &Host, name: &str, v: Value) -> Value {
    h.get(Cmd::Ext(name.into(), v))
}

impl S {
    fn new(seed: u64, tag: u64) -> S {
        let mut w = World::new(seed);
        let mut r = Rng::of(&[seed, tag]);
        if r.pct(40) {
            crate::shim::set_delay(10, 300, seed);
        }
        for _ in 0..r.range(1, 2) {
            let env = if r.pct(40) {
                vec![("VH_DELAY", format!("10,300,{}", r.u64() >> 1))]
            } else {
                vec![]
            };
            w.peer_env(&env);
        }
        let hosts = w.hosts();
        let pool = strs(&["a", "b", "c"]);
        let sid = w.sid();
        let mut s = S {
            w,
            r,
            pool,
            es: vec![],
            next_id: 1,
            sid,
            seq: 0,
        };
        let mut order = hosts.clone();
        s.r.shuffle(&mut order);
        let n = s.r.range(2, 5).max(order.len() as u64);
        for i in 0..n as usize {
            let h = if i < order.len() {
                order[i].clone()
            } else {
                s.r.pick(&hosts).clone()
            };
            // The first one must be able to send
            let decodes = i == 0 || s.r.pct(80);
            s.join(&h, decodes);
        }
        s
    }

    fn join(&mut self, h: &Host, decodes: bool) -> usize {
        let label: Vec<String> = {
            let r = &mut self.r;
            self.pool.iter().filter(|_| r.pct(50)).cloned().collect()
        };
        self.join_as(h, decodes, label)
    }

    fn join_as(&mut self, h: &Host, decodes: bool, label: Vec<String>) -> usize {
        let ep = self.w.join(h, &label, |j| {
            j.auto = false;
            j.rtype = if decodes { "in" } else { "stop" }.into();
        });
        let mut set = set_of(&label);
        set.insert(format!("@{ep}"));
        self.es.push(E {
            ep,
            h: h.clone(),
            set,
            decodes,
            open: true,
        });
        self.es.len() - 1
    }

    fn ids(&mut self, n: u32) -> u32 {
        self.next_id += n;
        self.next_id - n
    }

    fn send(&mut self, from: usize, op: Op, uni: bool, ttl_ns: u64, objects: Vec<u32>, regions: Vec<u32>) -> u32 {
        self.send_raw(from, op, uni, ttl_ns, objects, regions, None)
    }

    fn send_raw(
        &mut self,
        from: usize,
        op: Op,
        uni: bool,
        ttl_ns: u64,
        objects: Vec<u32>,
        regions: Vec<u32>,
        raw: Option<([u8; 16], Vec<u8>)>,
    ) -> u32 {
        self.seq += 1;
        let mut m = SendSpec::new(self.es[from].ep, self.sid, self.seq, op);
        m.uni = uni;
        m.ttl_ns = ttl_ns;
        m.raw = raw;
        m.objects = objects;
        m.regions = regions;
        m.len = self.r.below(200) as u32;
        if let Some(e) = self.es[from].h.send(m) {
            OUT.violation("attach:send", format!("send failed: {e}"));
            OUT.finish();
        }
        self.seq
    }

    /// A formula for the endpoints there are now: a later join must not be able to get the message
    fn op(&mut self) -> Op {
        let mut tags = Op::F;
        for e in &self.es {
            tags = Op::O(Box::new(tags), Box::new(Op::leaf(&format!("@{}", e.ep))));
        }
        let pool = self.pool.clone();
        Op::A(Box::new(Op::random(&mut self.r, &pool, 2)), Box::new(tags))
    }

    /// Traffic that nobody receives
    fn nudge(&mut self) {
        let i = self.r.below(self.es.len() as u64) as usize;
        self.send(i, Op::F, false, 0, vec![], vec![]);
    }

    /// One message of the endpoint, what is attached is held from `hold` on.
    fn recv(&mut self, i: usize, ms: u64, hold: u32) -> Option<Value> {
        let e = &self.es[i];
        let v = e.h.recv(e.ep, ms, hold);
        match v["err"].as_str() {
            None => Some(v),
            Some("timeout") => None,
            Some("decode") => Some(v),
            Some(x) => {
                OUT.violation(format!("attach:recv {x}"), format!("endpoint {}: {x}", e.ep));
                OUT.finish();
            }
        }
    }

    fn matching(&self, op: &Op) -> Vec<usize> {
        (0..self.es.len())
            .filter(|i| self.es[*i].open && op.eval(&self.es[*i].set))
            .collect()
    }

    /// Polls a condition for a while, judged only if the machine was not stalled.
    fn eventually(&mut self, sig: &str, what: &str, nudge: bool, mut f: impl FnMut(&mut S) -> Option<String>) {
        reset_overshoot();
        let start = now_ns();
        let mut wait = 100;
        let mut n = 0;
        loop {
            let bad = match f(self) {
                None => return,
                Some(b) => b,
            };
            n += 1;
            if now_ns() - start > 6_000_000_000 {
                if worst_overshoot_ms() < 1500 {
                    OUT.violation(sig, format!("{what}: {bad} (seed {})", self.w.seed));
                } else {
                    OUT.inconclusive(format!("{what}: {bad}, the machine stalled"));
                }
                OUT.finish();
            }
            if nudge && n % 8 == 0 {
                self.nudge();
                // What has been slow to arrive at those that receive without decoding
                for i in 0..if sig == "attach:leak" { self.es.len() } else { 0 } {
                    if self.es[i].open && !self.es[i].decodes {
                        self.recv(i, 5, 0);
                    }
                }
            }
            sleep_us(wait);
            wait = (wait * 2).min(20_000);
        }
    }
}

// ---------------------------------------------------------------- C07

struct Batch {
    host: Host,
    /// kept ends that tell whether somebody still has the other end
    kept: Vec<u32>,
    all: Vec<u32>,
}

pub fn objects(seed: u64) {
    let mut s = S::new(seed, 7);
    let cases = s.r.range(12, 25);
    // (receiver, held ids, the sender's kept ids) still owned by receivers
    let mut owned: Vec<(Host, Vec<u32>, Host, Vec<u32>)> = vec![];
    let mut batches: Vec<Batch> = vec![];
    for case in 0..cases {
        if s.r.pct(10) && s.es.len() < 9 {
            let hosts = s.w.hosts();
            let h = s.r.pick(&hosts).clone();
            s.join(&h, true);
        }
        let from = s.r.below(s.es.len() as u64) as usize;
        let host = s.es[from].h.clone();
        let k = match s.r.below(12) {
            0 => 0,
            1 => s.r.range(20, 60),
            2 => *s.r.pick(&[100, 200, 250, 253]),
            _ => s.r.range(1, 6),
        } as u32;
        let id0 = s.ids(k + 4);
        let mut want = vec![];
        let mut b = Batch {
            host: host.clone(),
            kept: vec![],
            all: vec![],
        };
        let mut kinds = vec![];
        for i in 0..k {
            let id = id0 + i;
            if i >= 20 {
                // Many of them: further handles of the first ones
                ext(&host, "obj.dup", json!({"id": id0 + i % 20, "to": id}));
                want.push(Value::clone(&want[(i % 20) as usize]));
                continue;
            }
            let kind = *s.r.pick(&["pipe", "pipe", "pipe_in", "sock", "memfd", "file", "eventfd", "dir"]);
            let salt = (case * 61 + i as u64 * 7 + s.r.below(5)) % 2000;
            let v = ext(&host, "obj.make", json!({"id": id, "kind": kind, "salt": salt}));
            want.push(v);
            kinds.push(kind);
            b.all.push(id);
            if ["pipe", "pipe_in", "sock"].contains(&kind) {
                b.kept.push(id);
            }
        }
        let nr = if k < 250 { s.r.below(3) * s.r.below(2) } else { 0 } as u32;
        let mut rwant = vec![];
        for i in 0..nr {
            let rid = id0 + k + i;
            let size = s.r.range(1, 9000);
            ext(&host, "mr.new", json!({"id": rid, "size": size}));
            let fill = s.r.u64();
            ext(&host, "mr.map", json!({"id": rid, "lo": ["u"], "hi": ["u"], "write": fill}));
            rwant.push((size, hash(&Rng::new(fill).fill(size as usize)), ext(&host, "mr.ino", json!({"id": rid}))));
        }
        // Where to
        let mut uni = s.r.pct(40);
        let fate = s.r.below(12);
        let mut op = s.op();
        let mut ttl = 0;
        let mut late = None;
        match fate {
            0 => op = Op::leaf("nobody"),
            1 => {
                // Nobody now, but soon
                op = Op::leaf(&format!("late{case}"));
                ttl = 3_600_000_000_000;
                late = Some(true);
            }
            2 => {
                op = Op::leaf(&format!("late{case}"));
                ttl = s.r.range(1, 5_000_000);
                late = Some(false);
            }
            _ => {}
        }
        // One that does not know the type would swallow it
        uni = uni && s.matching(&op).iter().all(|i| s.es[*i].decodes);
        let mut objs: Vec<u32> = (id0..id0 + k).collect();
        if k > 1 && k < 20 && s.r.pct(30) {
            // One of them twice
            let to = s.ids(1);
            let i = s.r.below(k as u64) as usize;
            ext(&host, "obj.dup", json!({"id": id0 + i as u32, "to": to}));
            objs.push(to);
            want.push(want[i].clone());
        }
        s.send(from, op.clone(), uni, ttl, objs, (id0 + k..id0 + k + nr).collect());
        OUT.count("objects_sent", want.len() as u64);
        OUT.count("cases", 1);
        OUT.max("objects_in_one_message", want.len() as u64);
        match late {
            Some(true) => {
                let hosts = s.w.hosts();
                let h = s.r.pick(&hosts).clone();
                s.join_as(&h, true, vec![format!("late{case}")]);
                OUT.count("received_late", 1);
            }
            Some(false) => sleep_us(ttl / 1000 + 1000),
            None => {}
        }
        let to = s.matching(&op);
        let mut got: Vec<(usize, Value, u32)> = vec![];
        let n = want.len() as u32;
        if uni {
            let start = now_ns();
            'probe: while !to.is_empty() {
                for i in &to {
                    let hold = s.ids(n + nr);
                    let t = if to.len() == 1 { 300 } else { 3 };
                    if let Some(v) = s.recv(*i, t, hold) {
                        got.push((*i, v, hold));
                        break 'probe;
                    }
                }
                if now_ns() - start > 8_000_000_000 {
                    if worst_overshoot_ms() < 1500 {
                        OUT.violation("attach:lost", format!("unicast with {n} objects and {nr} regions"));
                    } else {
                        OUT.inconclusive("unicast with attachments not received, machine stalled");
                    }
                    OUT.finish();
                }
            }
        } else {
            for i in &to {
                let hold = s.ids(n + nr);
                if s.es[*i].decodes {
                    match s.recv(*i, 8000, hold) {
                        Some(v) => got.push((*i, v, hold)),
                        None => {
                            OUT.violation(
                                "attach:lost",
                                format!("multicast with {n} objects and {nr} regions not received by {}", s.es[*i].ep),
                            );
                            OUT.finish();
                        }
                    }
                }
            }
            for i in &to {
                if !s.es[*i].decodes {
                    s.recv(*i, 20, 0);
                    OUT.count("undecoded", 1);
                }
            }
        }
        s.r.shuffle(&mut got);
        let mut seqs = vec![];
        for (gi, (i, v, hold)) in got.iter().enumerate() {
            let h = s.es[*i].h.clone();
            let what = format!("message {} with {kinds:?} from {} at endpoint {}", s.seq, host.name(), s.es[*i].ep);
            if v["seq"] != s.seq {
                // One of an earlier unicast: take it later
                seqs.push(v["seq"].clone());
                continue;
            }
            if v["objects"] != n || v["regions"] != nr {
                OUT.violation(
                    "attach:count",
                    format!("{what}: {} objects and {} regions instead of {n} and {nr}", v["objects"], v["regions"]),
                );
                OUT.finish();
            }
            let ids: Vec<u32> = (*hold..hold + n).collect();
            let st = ext(&h, "obj.stat", json!({"ids": ids}));
            let mut fds = BTreeSet::new();
            for (j, (a, wj)) in st.as_array().unwrap().iter().zip(&want).enumerate() {
                for key in ["dev", "ino", "mode", "size", "flags", "pos", "counter"] {
                    if a[key] != wj[key] && a["bad"].is_null() || !a["bad"].is_null() {
                        OUT.violation("attach:identity", format!("{what}: object {j} is {a}, was {wj}"));
                        OUT.finish();
                    }
                }
                if !fds.insert(a["fd"].as_u64()) {
                    OUT.violation("attach:shared handle", format!("{what}: object {j} {a}"));
                }
            }
            OUT.count("objects_received", n as u64);
            // The same open object, not only an equal one
            for (j, kind) in kinds.iter().enumerate() {
                if !s.r.pct(50) {
                    continue;
                }
                let (there, here) = (hold + j as u32, id0 + j as u32);
                match *kind {
                    "memfd" | "file" => {
                        let pos = 1000 + s.r.below(1000);
                        ext(&h, "obj.seek", json!({"id": there, "pos": pos}));
                        let p = ext(&host, "obj.keptpos", json!({"id": here}));
                        if p != pos {
                            OUT.violation("attach:identity", format!("{what}: offset of {kind} {j} is not shared"));
                        }
                        for wj in want.iter_mut().filter(|x| x["ino"] == st[j]["ino"] && x["dev"] == st[j]["dev"]) {
                            wj["pos"] = pos.into();
                        }
                    }
                    "pipe" | "sock" => {
                        let data = format!("through {there}");
                        ext(&h, "obj.write", json!({"id": there, "data": data}));
                        let p = ext(&host, "obj.keptread", json!({"id": here}));
                        if p != data {
                            OUT.violation("attach:identity", format!("{what}: {kind} {j} leads elsewhere: {p}"));
                        }
                        OUT.count("written_through", 1);
                    }
                    _ => {}
                }
            }
            for (j, (size, sum, ino)) in rwant.iter().enumerate() {
                let rid = hold + j as u32;
                let m = ext(&h, "mr.map", json!({"id": rid, "lo": ["u"], "hi": ["u"]}));
                let ino2 = ext(&h, "mr.ino", json!({"id": rid}));
                if m["len"] != *size || m["before"] != *sum || ino2 != *ino {
                    OUT.violation("attach:region", format!("{what}: region {j} differs: {m}"));
                }
                ext(&h, "mr.drop", json!({"id": rid}));
            }
            OUT.distinct(format!("{}:{kinds:?}:{n}:{nr}:{uni}:{}", s.seq, got.len()));
            // The next receiver's must survive the end of this one's
            if gi + 1 == got.len() && s.r.pct(30) && !b.kept.is_empty() {
                owned.push((h, ids, host.clone(), b.kept.clone()));
            } else {
                ext(&h, "obj.drop", json!({"ids": ids}));
            }
        }
        if !seqs.is_empty() {
            // Cannot happen: every case is drained completely
            OUT.violation("attach:order", format!("message {seqs:?} instead of {}", s.seq));
        }
        if s.r.pct(5) && s.es.len() > 2 {
            // Close one that may have messages
            let i = 1 + s.r.below(s.es.len() as u64 - 1) as usize;
            if s.es[i].open {
                let ep = s.es[i].ep;
                let x = s.ids(2);
                ext(&s.es[i].h.clone(), "obj.make", json!({"id": x, "kind": "pipe"}));
                let h = s.es[i].h.clone();
                s.send(i, Op::leaf(&format!("@{ep}")), false, 0, vec![x], vec![]);
                h.get(Cmd::CloseRx(ep));
                s.es[i].open = false;
                batches.push(Batch {
                    host: h,
                    kept: vec![x],
                    all: vec![x],
                });
                OUT.count("closed_with_messages", 1);
            }
        }
        // What nobody owns any more must be gone everywhere
        let mut busy: BTreeSet<u32> = BTreeSet::new();
        for (rh, ids, h, kept) in &owned {
            let open: Vec<u32> = serde_json::from_value(ext(h, "obj.open", json!({"ids": kept}))).unwrap();
            if open.len() != kept.len() {
                OUT.violation(
                    "attach:closed early",
                    format!("{ids:?} held by {}: of {kept:?} only {open:?} are open", rh.name()),
                );
            }
            busy.extend(kept.iter().copied());
        }
        let kept: Vec<u32> = b.kept.iter().copied().filter(|x| !busy.contains(x)).collect();
        let fin = case + 1 == cases || s.r.pct(30);
        batches.push(Batch { kept, ..b });
        if fin {
            for b in batches.drain(..) {
                OUT.count("leak_checked", b.kept.len() as u64);
                s.eventually("attach:leak", "objects still open after everybody dropped them", true, |_| {
                    let open = ext(&b.host, "obj.open", json!({"ids": b.kept}));
                    if open.as_array().unwrap().is_empty() {
                        None
                    } else {
                        Some(format!("{open} sent by {}", b.host.name()))
                    }
                });
                let f: Vec<u32> = b.all.iter().copied().filter(|x| !busy.contains(x)).collect();
                ext(&b.host, "obj.forget", json!({"ids": f}));
            }
        }
    }
    for (rh, ids, h, kept) in owned {
        ext(&rh, "obj.drop", json!({"ids": ids}));
        OUT.count("leak_checked", kept.len() as u64);
        s.eventually("attach:leak", "objects still open after their last owner dropped them", true, |_| {
            let open = ext(&h, "obj.open", json!({"ids": kept}));
            if open.as_array().unwrap().is_empty() {
                None
            } else {
                Some(format!("{open} sent by {}", h.name()))
            }
        });
    }
    s.w.check_badclose();
    OUT.sample(json!({"endpoints": s.es.iter().map(|e| format!("{} {:?} decodes {}", e.h.name(), e.set, e.decodes)).collect::<Vec<_>>()}));
}

// ---------------------------------------------------------------- C08

/// A region of several gigabytes, hardly any of which is ever touched.
fn huge(s: &mut S) {
    let g = 1u64 << 32;
    let size = match s.r.below(4) {
        0 => g + s.r.below(20_000),
        1 => 2 * g - 12 + s.r.below(24),
        2 => g / 2 + s.r.below(40_000),
        _ => g + s.r.below(g),
    };
    let id = s.ids(1);
    let from = s.r.below(s.es.len() as u64) as usize;
    let h = s.es[from].h.clone();
    let v = ext(&h, "mr.new", json!({"id": id, "size": size}));
    if v["size"] != size {
        OUT.violation("region:size", format!("new region of {size}: {v}"));
        OUT.finish();
    }
    let mut handles = vec![(h.clone(), id)];
    let to = s.ids(1);
    ext(&h, "mr.clone", json!({"id": id, "to": to}));
    let op = s.op();
    s.send(from, op.clone(), false, 0, vec![], vec![to]);
    for i in s.matching(&op) {
        let hold = s.ids(1);
        match s.recv(i, if s.es[i].decodes { 8000 } else { 20 }, hold) {
            Some(_) => {
                let h = s.es[i].h.clone();
                let sz = ext(&h, "mr.size", json!({"id": hold}));
                if sz != size {
                    OUT.violation("region:size", format!("received {sz}, sent {size}"));
                    OUT.finish();
                }
                handles.push((h, hold));
            }
            None if s.es[i].decodes => {
                OUT.violation("attach:lost", "multicast with a huge region not received");
                OUT.finish();
            }
            None => {}
        }
    }
    let mut written: Vec<(u64, Vec<u8>)> = vec![];
    for _ in 0..s.r.range(15, 40) {
        let len = s.r.below(9000);
        let near = match s.r.below(5) {
            0 => size.saturating_sub(len),
            1 => g - 12 + s.r.below(24),
            2 => s.r.below(100),
            // What a wrapped offset would hit
            3 => match s.r.below(written.len() as u64 + 1) as usize {
                k if k < written.len() => written[k].0 % g,
                _ => 0,
            },
            _ => s.r.below(size),
        };
        let (a, b) = (near.min(size), (near + len).min(size));
        let outside = s.r.pct(15);
        let b = if outside { size + 1 + s.r.below(2 * g) } else { b };
        let (h, id) = s.r.pick(&handles).clone();
        let mut cmd = json!({"id": id, "lo": ["i", a], "hi": ["e", b], "sugar": s.r.pct(50)});
        if b == size && s.r.pct(50) {
            cmd["hi"] = json!(["u"]);
        }
        let write = s.r.u64();
        if s.r.pct(50) && !outside {
            cmd["write"] = write.into();
        }
        let v = ext(&h, "mr.map", cmd.clone());
        let what = format!("{cmd} of {size} bytes: {v}");
        OUT.count("huge_windows", 1);
        if outside {
            if v["err"].is_null() {
                OUT.violation("region:outside", what);
                OUT.finish();
            }
            continue;
        }
        if v["len"] != b - a {
            OUT.violation("region:window", what);
            OUT.finish();
        }
        let mut model = vec![0u8; (b - a) as usize];
        for (o, d) in &written {
            let (lo, hi) = ((*o).max(a), (*o + d.len() as u64).min(b));
            if lo < hi {
                model[(lo - a) as usize..(hi - a) as usize].copy_from_slice(&d[(lo - o) as usize..(hi - o) as usize]);
            }
        }
        if v["before"] != hash(&model) {
            OUT.violation("region:bytes", format!("{what}: other bytes than written"));
            OUT.finish();
        }
        if !cmd["write"].is_null() {
            written.push((a, Rng::new(write).fill((b - a) as usize)));
        }
    }
    for (h, id) in &handles {
        ext(h, "mr.drop", json!({"id": id}));
    }
}

pub fn memory(seed: u64) {
    let mut s = S::new(seed, 8);
    struct R {
        bytes: Vec<u8>,
        handles: Vec<(Host, u32)>,
    }
    let mut rs: Vec<R> = vec![];
    let steps = s.r.range(60, 120);
    for _ in 0..steps {
        let c = s.r.below(100);
        if rs.is_empty() || c < 6 && rs.len() < 6 {
            let size = match s.r.below(9) {
                0 => 0,
                1 => s.r.range(1, 16),
                2 => s.r.range(4080, 4100),
                3 => s.r.range(8176, 8196),
                4 => 4096 * s.r.range(1, 20),
                5 => 4096 * s.r.range(1, 20) - 12,
                6 => s.r.range(1 << 18, 1 << 20),
                _ => s.r.range(1, 30_000),
            };
            let h = { let hs = s.w.hosts(); s.r.pick(&hs).clone() };
            let id = s.ids(1);
            let v = ext(&h, "mr.new", json!({"id": id, "size": size}));
            if v["size"] != size {
                OUT.violation("region:size", format!("new region of {size}: {v}"));
                OUT.finish();
            }
            // Everything written before it is compared
            let fill = s.r.u64();
            let m = ext(&h, "mr.map", json!({"id": id, "lo": ["u"], "hi": ["u"], "write": fill}));
            if m["len"] != size {
                OUT.violation("region:window", format!("map(..) of {size} bytes: {m}"));
            }
            rs.push(R {
                bytes: Rng::new(fill).fill(size as usize),
                handles: vec![(h, id)],
            });
            continue;
        }
        let ri = s.r.below(rs.len() as u64) as usize;
        let hi = s.r.below(rs[ri].handles.len() as u64) as usize;
        let (h, id) = rs[ri].handles[hi].clone();
        let size = rs[ri].bytes.len() as u64;
        if c < 16 && rs[ri].handles.len() < 8 {
            let to = s.ids(1);
            let obj = s.r.pct(40);
            let v = ext(&h, "mr.clone", json!({"id": id, "to": to, "obj": obj}));
            if !v["err"].is_null() {
                OUT.violation("region:clone", format!("{v}"));
            }
            rs[ri].handles.push((h.clone(), to));
            if ext(&h, "mr.size", json!({"id": to})) != size {
                OUT.violation("region:size", "of a clone");
            }
        } else if c < 30 {
            // Travels (a clone of it), alone or with others, some of them the same
            let from = match s.es.iter().position(|e| e.h.name() == h.name()) {
                Some(i) => i,
                None => continue,
            };
            let mut list = vec![];
            let mut ids = vec![];
            for k in 0..s.r.range(1, 3) {
                let rj = if k == 0 || s.r.pct(30) { ri } else { s.r.below(rs.len() as u64) as usize };
                let src = rs[rj].handles.iter().find(|x| x.0.name() == h.name()).cloned();
                if let Some((_, id)) = src {
                    let to = s.ids(1);
                    ext(&h, "mr.clone", json!({"id": id, "to": to}));
                    ids.push(to);
                    list.push(rj);
                }
            }
            let op = s.op();
            s.send(from, op.clone(), false, 0, vec![], ids);
            for i in s.matching(&op) {
                let hold = s.ids(list.len() as u32);
                match s.recv(i, if s.es[i].decodes { 8000 } else { 20 }, hold) {
                    Some(v) => {
                        if v["regions"] != list.len() {
                            OUT.violation("attach:count", format!("{v}: {} regions were sent", list.len()));
                            OUT.finish();
                        }
                        let h = s.es[i].h.clone();
                        for (k, rj) in list.iter().enumerate() {
                            let id = hold + k as u32;
                            let sz = ext(&h, "mr.size", json!({"id": id}));
                            if sz != rs[*rj].bytes.len() {
                                OUT.violation("region:size", format!("received {sz}, sent {}", rs[*rj].bytes.len()));
                                OUT.finish();
                            }
                            rs[*rj].handles.push((h.clone(), id));
                            OUT.count("regions_received", 1);
                        }
                    }
                    None if s.es[i].decodes => {
                        OUT.violation("attach:lost", "multicast with regions not received");
                        OUT.finish();
                    }
                    None => {}
                }
            }
        } else if c < 34 && rs[ri].handles.len() > 1 {
            ext(&h, "mr.drop", json!({"id": id}));
            rs[ri].handles.swap_remove(hi);
        } else {
            // Map a window
            let inside = s.r.pct(75);
            let near = |r: &mut Rng| -> u64 {
                match r.below(6) {
                    0 => 0,
                    1 => size,
                    2 => size.saturating_sub(r.below(3)),
                    3 => (r.below(size / 4096 + 2) * 4096 + 4084 + r.below(3)) % (size + 1),
                    _ => r.below(size + 1),
                }
            };
            let far = |r: &mut Rng| -> u64 {
                match r.below(7) {
                    0 => size + r.below(14),
                    1 => size + r.below(5000),
                    2 => usize::MAX as u64 - r.below(14),
                    3 => i64::MAX as u64 - r.below(14),
                    4 => 1 << r.range(32, 63),
                    5 => u64::MAX - 4096 - r.below(100),
                    _ => r.below(size + 1),
                }
            };
            let (mut a, mut b) = (near(&mut s.r), near(&mut s.r));
            if a > b && !s.r.pct(5) {
                std::mem::swap(&mut a, &mut b);
            }
            if !inside {
                if s.r.pct(50) {
                    a = far(&mut s.r);
                }
                if s.r.pct(70) {
                    b = far(&mut s.r);
                }
            }
            let lo = match s.r.below(5) {
                0 => json!(["u"]),
                1 if a > 0 => json!(["e", a - 1]),
                _ => json!(["i", a]),
            };
            let hi = match s.r.below(6) {
                0 | 1 => json!(["u"]),
                2 if b > 0 => json!(["i", b - 1]),
                _ => json!(["e", b]),
            };
            let start = match lo[0].as_str().unwrap() {
                "u" => 0u128,
                "e" => lo[1].as_u64().unwrap() as u128 + 1,
                _ => lo[1].as_u64().unwrap() as u128,
            };
            let end = match hi[0].as_str().unwrap() {
                "u" => size as u128,
                "i" => hi[1].as_u64().unwrap() as u128 + 1,
                _ => hi[1].as_u64().unwrap() as u128,
            };
            let write = if s.r.pct(50) { Some(s.r.u64()) } else { None };
            let sugar = s.r.pct(60);
            let mut cmd = json!({"id": id, "lo": lo, "hi": hi, "sugar": sugar});
            if let Some(x) = write {
                cmd["write"] = x.into();
            }
            let v = ext(&h, "mr.map", cmd);
            let what = format!("map({lo}, {hi}) of {size} bytes: {v}");
            OUT.count("windows", 1);
            OUT.distinct(format!("{size}:{start}:{end}"));
            if start > size as u128 || end > size as u128 {
                OUT.count("windows_outside", 1);
                if v["err"].is_null() {
                    OUT.violation("region:outside", what);
                    OUT.finish();
                }
            } else if start > end {
                // Written the wrong way round: nothing or an error
                if v["err"].is_null() && v["len"] != 0 {
                    OUT.violation("region:window", what);
                    OUT.finish();
                }
            } else {
                let (a, b) = (start as usize, end as usize);
                if v["len"] != b - a {
                    OUT.violation("region:window", what);
                    OUT.finish();
                }
                if v["before"] != hash(&rs[ri].bytes[a..b]) {
                    OUT.violation("region:bytes", format!("{what}: other bytes than written"));
                    OUT.finish();
                }
                if let Some(x) = write {
                    let d = Rng::new(x).fill(b - a);
                    rs[ri].bytes[a..b].copy_from_slice(&d);
                }
            }
        }
    }
    if s.r.pct(60) {
        huge(&mut s);
    }
    // All of it, through every handle that is left
    for r in &rs {
        for (h, id) in &r.handles {
            let v = ext(h, "mr.map", json!({"id": id, "lo": ["u"], "hi": ["u"]}));
            OUT.count("handles_compared", 1);
            if v["len"] != r.bytes.len() || v["before"] != hash(&r.bytes) {
                OUT.violation("region:bytes", format!("{v} of {} bytes at the end in {}", r.bytes.len(), h.name()));
            }
        }
    }
    OUT.sample(json!({"regions": rs.iter().map(|r| json!([r.bytes.len(), r.handles.iter().map(|h| h.0.name()).collect::<Vec<_>>()])).collect::<Vec<_>>()}));
}

// ---------------------------------------------------------------- C09

pub fn refcount(seed: u64) {
    let mut s = S::new(seed, 9);
    #[derive(Default)]
    struct R {
        handles: Vec<(Host, u32)>,
        /// lost inside a receiver that was closed
        slack: u32,
    }
    struct Flight {
        regions: Vec<usize>,
        /// waiting for a joiner: until (None: has not been expired), label
        buffered: Option<(u64, String)>,
        /// endpoints that have not consumed it
        at: BTreeSet<usize>,
        broken: bool,
    }
    let mut rs: Vec<R> = vec![];
    let mut fl: BTreeMap<u32, Flight> = BTreeMap::new();
    let mut tag = 0;
    let mut many = false;
    let steps = s.r.range(80, 220);
    let mut story = vec![];

    // The count of every region through one of its handles
    fn verify(s: &mut S, rs: &[R], fl: &BTreeMap<u32, Flight>, story: &[String]) {
        for (i, r) in rs.iter().enumerate() {
            let (h, id) = match r.handles.first() {
                Some(x) => x.clone(),
                None => continue,
            };
            let mut want = r.handles.len() as u64;
            for f in fl.values() {
                let n = f.regions.iter().filter(|x| **x == i).count() as u64;
                want += n * f.at.len() as u64;
                if f.buffered.is_some() {
                    want += n;
                }
            }
            let slack = r.slack as u64;
            let skipping: Vec<usize> = (0..s.es.len())
                .filter(|i| s.es[*i].open && !s.es[*i].decodes && fl.values().all(|f| !f.at.contains(i)))
                .collect();
            let tail = story.iter().rev().take(8).rev().cloned().collect::<Vec<_>>().join("; ");
            s.eventually("refcount:value", &format!("region {i}, after: {tail}"), true, |s| {
                // What arrived late at those that skip everything
                for i in &skipping {
                    s.recv(*i, 0, 0);
                }
                let c = ext(&h, "mr.count", json!({"id": id})).as_u64().unwrap();
                if c > 1_000_000 {
                    OUT.violation("refcount:underflow", format!("region {i}: {c} after: {tail}"));
                    OUT.finish();
                }
                if c >= want && c <= want + slack {
                    None
                } else {
                    Some(format!("count {c}, but {want} live handles and copies"))
                }
            });
            OUT.count("counts_compared", 1);
            OUT.max("count", want);
        }
    }

    for _ in 0..steps {
        let c = s.r.below(100);
        if rs.is_empty() || c < 8 && rs.len() < 5 {
            let h = { let hs = s.w.hosts(); s.r.pick(&hs).clone() };
            let id = s.ids(1);
            ext(&h, "mr.new", json!({"id": id, "size": s.r.range(0, 9000)}));
            story.push(format!("new region {} in {}", rs.len(), h.name()));
            rs.push(R {
                handles: vec![(h, id)],
                slack: 0,
            });
            continue;
        }
        let ri = s.r.below(rs.len() as u64) as usize;
        if c < 20 {
            if rs[ri].handles.is_empty() {
                continue;
            }
            let (h, id) = s.r.pick(&rs[ri].handles).clone();
            let to = s.ids(1);
            let obj = s.r.pct(50);
            ext(&h, "mr.clone", json!({"id": id, "to": to, "obj": obj}));
            story.push(format!("clone of {ri} in {} (object {obj})", h.name()));
            rs[ri].handles.push((h, to));
        } else if c == 20 && s.r.pct(40) {
            // A great many handles
            if rs[ri].handles.is_empty() || many {
                continue;
            }
            many = true;
            let (h, id) = s.r.pick(&rs[ri].handles).clone();
            let n = *s.r.pick(&[130u32, 260, 300, 700]);
            let to = s.ids(n);
            let v = ext(&h, "mr.many", json!({"id": id, "n": n, "to": to}));
            let made = v["made"].as_u64().unwrap() as u32;
            story.push(format!("{made} clones of {ri} in {}", h.name()));
            if made == n {
                OUT.count("many_handles", 1);
            }
            rs[ri].handles.extend((0..made).map(|k| (h.clone(), to + k)));
        } else if c == 21 && s.r.pct(60) && rs[ri].handles.len() > 20 {
            // And all but some of them go
            let keep = s.r.range(1, 12) as usize;
            let go = rs[ri].handles.split_off(keep);
            let mut by: BTreeMap<String, (Host, Vec<u32>)> = BTreeMap::new();
            for (h, id) in go {
                by.entry(h.name()).or_insert((h, vec![])).1.push(id);
            }
            story.push(format!("all but {keep} handles of {ri} are dropped"));
            for (h, ids) in by.into_values() {
                ext(&h, "mr.drops", json!({"ids": ids}));
            }
        } else if c < 23 {
            // Everybody who has one clones and drops handles of it, at the same time
            let mut at: Vec<(Host, u32)> = vec![];
            for (h, id) in &rs[ri].handles {
                if !at.iter().any(|x| x.0.name() == h.name()) {
                    at.push((h.clone(), *id));
                }
            }
            let mut ths = vec![];
            for (h, id) in at {
                let threads = s.r.range(2, 4) as u32;
                let (keep, to) = (s.r.below(3) as u32, s.ids(4));
                let v = json!({"id": id, "threads": threads, "n": s.r.range(20, 400), "keep": keep.min(threads), "to": to, "seed": s.r.u64() >> 1});
                for k in 0..keep.min(threads) {
                    rs[ri].handles.push((h.clone(), to + k));
                }
                story.push(format!("storm on {ri} in {}: {v}", h.name()));
                ths.push(std::thread::spawn(move || ext(&h, "mr.storm", v)));
                OUT.count("storms", 1);
            }
            if ths.len() > 1 {
                OUT.count("storms_in_two_processes", 1);
            }
            for t in ths {
                t.join().unwrap();
            }
        } else if c < 28 {
            if rs[ri].handles.len() > 1 {
                let i = s.r.below(rs[ri].handles.len() as u64) as usize;
                let (h, id) = rs[ri].handles.swap_remove(i);
                ext(&h, "mr.drop", json!({"id": id}));
                story.push(format!("drop a handle of {ri} in {}", h.name()));
            }
        } else if c < 60 {
            // Send: moves handles into the message
            let from = s.r.below(s.es.len() as u64) as usize;
            let h = s.es[from].h.clone();
            let mut ids = vec![];
            let mut regions = vec![];
            for _ in 0..s.r.range(1, 3) {
                let rj = s.r.below(rs.len() as u64) as usize;
                if let Some(i) = rs[rj].handles.iter().rposition(|x| x.0.name() == h.name()) {
                    if rs[rj].handles.len() > 1 && s.r.pct(50) {
                        ids.push(rs[rj].handles.swap_remove(i).1);
                    } else {
                        let to = s.ids(1);
                        let id = rs[rj].handles[i].1;
                        ext(&h, "mr.clone", json!({"id": id, "to": to}));
                        ids.push(to);
                    }
                    regions.push(rj);
                }
            }
            if ids.is_empty() {
                continue;
            }
            if s.r.pct(15) {
                // Too large, or with too many attachments: nobody gets it, every copy is taken back
                let own = Op::leaf(&format!("@{}", s.es[0].ep));
                let op = Op::A(Box::new(s.op()), Box::new(Op::N(Box::new(own))));
                let raw = if s.r.pct(60) {
                    (<crate::msg::V as type_uuid::TypeUuid>::UUID, vec![1; s.r.range(250_000, 600_000) as usize])
                } else {
                    let n = s.r.range(254, 270) as u32;
                    let to = s.ids(n);
                    let v = ext(&h, "mr.many", json!({"id": ids[0], "n": n, "to": to}));
                    ids.extend(to..to + v["made"].as_u64().unwrap() as u32);
                    (<crate::msg::V as type_uuid::TypeUuid>::UUID, vec![1])
                };
                if raw.1.len() > 1 || ids.len() > 253 {
                    let (uni, ttl) = (s.r.pct(40), *s.r.pick(&[0, 0, 3_600_000_000_000]));
                    let to = s.matching(&op);
                    if ttl == 0 || !to.is_empty() {
                        let seq = s.send_raw(from, op.clone(), uni, ttl, vec![], ids, Some(raw));
                        story.push(format!("send {seq} {op:?} uni {uni} that cannot be transported with {regions:?} from {} to {to:?}", h.name()));
                        OUT.count("untransportable", 1);
                        OUT.count("untransportable_to_somebody", !to.is_empty() as u64);
                        continue;
                    }
                }
                ext(&h, "mr.drops", json!({"ids": ids}));
                continue;
            }
            let fate = s.r.below(10);
            let (mut op, mut uni, mut ttl) = (s.op(), false, 0);
            let mut buffered = None;
            match fate {
                0 => op = Op::leaf("nobody"),
                1 | 2 => {
                    tag += 1;
                    let l = format!("late{tag}");
                    op = Op::leaf(&l);
                    uni = s.r.pct(50);
                    let short = s.r.pct(50);
                    ttl = if short { s.r.range(1_000_000, 30_000_000) } else { 3_600_000_000_000 };
                    buffered = Some((if short { now_ns() + ttl } else { 0 }, l));
                }
                3 | 4 | 5 => {
                    uni = true;
                    let open: Vec<u32> = s.es.iter().map(|e| e.ep).collect();
                    op = Op::leaf(&format!("@{}", s.r.pick(&open)));
                }
                _ => {}
            }
            let to = s.matching(&op);
            // At most one per endpoint: the error does not say which one it was
            let free = !fl.values().any(|f| f.broken && to.iter().any(|i| f.at.contains(i)));
            let raw = if free && s.r.pct(15) {
                OUT.count("undecodable", 1);
                Some((<crate::msg::V as type_uuid::TypeUuid>::UUID, vec![1]))
            } else {
                None
            };
            let broken = raw.is_some();
            let seq = s.send_raw(from, op.clone(), uni, ttl, vec![], ids, raw);
            story.push(format!("send {seq} {op:?} uni {uni} ttl {} with {regions:?} from {} to {to:?}", ttl / 1_000_000, h.name()));
            OUT.count("sends", 1);
            OUT.count("copies", to.len() as u64);
            fl.insert(
                seq,
                Flight {
                    regions,
                    buffered,
                    broken,
                    at: to.into_iter().collect(),
                },
            );
            // Once expired, the next traffic clears it away
            if let Some(f) = fl.get_mut(&seq) {
                if let Some((t, _)) = f.buffered.clone() {
                    if t != 0 {
                        sleep_us(ttl / 1000 + 2000);
                        s.nudge();
                        f.buffered = None;
                        OUT.count("expired", 1);
                    }
                }
            }
        } else if c < 80 {
            // Receive one
            let i = s.r.below(s.es.len() as u64) as usize;
            if !s.es[i].open {
                continue;
            }
            let pending: Vec<u32> = fl.iter().filter(|(_, f)| f.at.contains(&i)).map(|(s, _)| *s).collect();
            if !s.es[i].decodes {
                s.recv(i, 0, 0);
                // Whatever had arrived is skipped
                for _ in 0..3 {
                    s.recv(i, 5, 0);
                }
                for q in pending {
                    fl.get_mut(&q).unwrap().at.remove(&i);
                }
                story.push(format!("endpoint {i} skips"));
                OUT.count("undecoded", 1);
                continue;
            }
            if pending.is_empty() {
                continue;
            }
            let hold = s.ids(4);
            let v = match s.recv(i, 8000, hold) {
                Some(v) => v,
                None => {
                    OUT.violation("attach:lost", format!("endpoint {i} has not received any of {pending:?}"));
                    OUT.finish();
                }
            };
            if v["err"] == "decode" {
                match fl.values_mut().find(|f| f.broken && f.at.contains(&i)) {
                    Some(f) => f.at.remove(&i),
                    None => {
                        OUT.violation("attach:decode", format!("endpoint {i}: decode error of a good message"));
                        OUT.finish();
                    }
                };
                story.push(format!("endpoint {i} fails to decode"));
                continue;
            }
            let seq = v["seq"].as_u64().unwrap() as u32;
            let f = match fl.get_mut(&seq) {
                Some(f) if f.at.contains(&i) => f,
                _ => {
                    OUT.violation("attach:phantom", format!("endpoint {i} received {v}"));
                    OUT.finish();
                }
            };
            f.at.remove(&i);
            if v["regions"] != f.regions.len() {
                OUT.violation("attach:count", format!("{v}: sent {}", f.regions.len()));
                OUT.finish();
            }
            let h = s.es[i].h.clone();
            for (k, rj) in f.regions.clone().into_iter().enumerate() {
                rs[rj].handles.push((h.clone(), hold + k as u32));
            }
            story.push(format!("endpoint {i} receives {seq}"));
            OUT.count("received", 1);
        } else if c < 85 {
            // Join for one that waits
            let q = fl.iter().find(|(_, f)| f.buffered.is_some()).map(|(q, f)| (*q, f.buffered.clone().unwrap().1));
            if let Some((q, l)) = q {
                let h = { let hs = s.w.hosts(); s.r.pick(&hs).clone() };
                let dec = s.r.pct(80);
                let i = s.join_as(&h, dec, vec![l]);
                let f = fl.get_mut(&q).unwrap();
                f.buffered = None;
                f.at.insert(i);
                // Everything else it matches was sent before
                story.push(format!("endpoint {i} joins for {q}"));
                OUT.count("late_joins", 1);
            }
        } else if c < 89 && s.es.iter().filter(|e| e.open).count() > 2 {
            let i = s.r.below(s.es.len() as u64) as usize;
            if s.es[i].open {
                let (h, ep) = (s.es[i].h.clone(), s.es[i].ep);
                h.get(Cmd::CloseRx(ep));
                s.es[i].open = false;
                for f in fl.values_mut() {
                    if f.at.remove(&i) {
                        for rj in &f.regions {
                            rs[*rj].slack += 1;
                        }
                    }
                }
                story.push(format!("endpoint {i} closes"));
                OUT.count("closed", 1);
            }
        } else {
            verify(&mut s, &rs, &fl, &story);
        }
    }
    verify(&mut s, &rs, &fl, &story);
    // Down to a single handle each
    for i in 0..s.es.len() {
        if !s.es[i].open {
            continue;
        }
        let n = fl.values().filter(|f| f.at.contains(&i)).count();
        if s.es[i].decodes {
            for _ in 0..n {
                let hold = s.ids(4);
                match s.recv(i, 8000, hold) {
                    Some(v) => {
                        let h = s.es[i].h.clone();
                        for k in 0..v["regions"].as_u64().unwrap_or(0) as u32 {
                            ext(&h, "mr.drop", json!({"id": hold + k}));
                        }
                    }
                    None => {
                        OUT.violation("attach:lost", format!("{n} messages missing at the end"));
                        OUT.finish();
                    }
                }
            }
        } else {
            for _ in 0..4 {
                s.recv(i, 5, 0);
            }
        }
        for f in fl.values_mut() {
            f.at.remove(&i);
        }
    }
    for r in &mut rs {
        while r.handles.len() > 1 {
            let (h, id) = r.handles.pop().unwrap();
            ext(&h, "mr.drop", json!({"id": id}));
        }
    }
    story.push("all but one handle of each dropped".into());
    verify(&mut s, &rs, &fl, &story);
    OUT.distinct(format!("{:x}", hash(story.join("").as_bytes())));
    OUT.sample(json!(story.iter().take(25).collect::<Vec<_>>()));
    s.w.check_badclose();
}
