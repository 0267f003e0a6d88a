//! C24: the same programs through the C, the C++ and the Rust interface, against one model.
use crate::lines::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

const INF: u64 = u32::MAX as u64;

#[derive(Clone, Debug)]
struct Msg {
    id: u64,
    /// "" or bad or foreign
    kind: &'static str,
    format: u16,
    seed: u64,
    len: usize,
    objs: Vec<(String, u64)>,
    regions: Vec<usize>,
}

struct Ep {
    id: i32,
    node: usize,
    label: BTreeSet<String>,
    s: bool,
    r: bool,
    /// something it sent may not have been routed yet
    dirty: bool,
    /// about how much it was sent since it was last found empty
    unread: usize,
    /// what has to arrive, per sending endpoint
    due: BTreeMap<i32, VecDeque<Msg>>,
}

impl Ep {
    fn pending(&self) -> usize {
        self.due.values().map(|q| q.len()).sum()
    }
}

struct Region {
    bytes: Vec<u8>,
    /// live handles and copies in messages
    live: i64,
    /// one more handle may be held by a registry
    registry: bool,
    /// lost within a closed receiver: the count may stay too high
    lost: bool,
}

struct Alloc {
    region: usize,
    tag: Option<String>,
    cb: Option<i32>,
}

struct Registry {
    node: usize,
    id: i32,
    allocs: Vec<Alloc>,
}

struct Waiting {
    msg: Msg,
    from: i32,
    label: String,
    lasts: bool,
    sent_ns: u64,
}

struct Sim {
    r: Rng,
    nodes: Vec<Lines>,
    kinds: Vec<&'static str>,
    base: Vec<String>,
    ident: String,
    token: String,
    eps: Vec<Ep>,
    regions: Vec<Region>,
    /// (node, handle) -> region
    handles: Vec<(usize, i32, usize)>,
    /// (node, handle) -> identity, content
    objs: Vec<(usize, i32, String, u64)>,
    /// received and not dropped: node, handle, what is left in it
    held: Vec<(usize, i32, Msg)>,
    registries: Vec<Registry>,
    waiting: Vec<Waiting>,
    freed: Vec<BTreeMap<i32, u32>>,
    /// callbacks of each node that must have run
    must: Vec<BTreeSet<i32>>,
    next: i32,
    host: Option<usize>,
    sig: Vec<String>,
}

impl Sim {
    fn n(&mut self) -> i32 {
        self.next += 1;
        self.next
    }

    fn ask(&mut self, node: usize, line: String) -> String {
        self.nodes[node].ask(&line)
    }

    fn want(&mut self, node: usize, line: String, want: &str) -> bool {
        let got = self.ask(node, line.clone());
        if got != want {
            self.bad(node, &line, &got, want);
        }
        got == want
    }

    fn bad(&mut self, node: usize, line: &str, got: &str, want: &str) {
        let k = self.kinds[node];
        let w = line.split(' ').next().unwrap_or("").to_owned();
        let log = &self.nodes[node].log;
        let story = log[log.len().saturating_sub(40)..].join("; ");
        OUT.violation(format!("{k}:{w}"), format!("'{line}' gives '{got}' instead of '{want}'; {story}"));
    }

    fn ep(&mut self, id: i32) -> &mut Ep {
        self.eps.iter_mut().find(|e| e.id == id).unwrap()
    }

    // ------------------------------------------------------------ joining and leaving

    /// What endpoints sent so far is routed among those which are there now.
    fn flush(&mut self, only: Option<i32>) {
        let dirty: Vec<(i32, usize)> = self.eps.iter().filter(|e| e.s && e.dirty && only.map_or(true, |o| o == e.id)).map(|e| (e.id, e.node)).collect();
        for (from, node) in dirty {
            self.ep(from).dirty = false;
            let rs: Vec<i32> = self.eps.iter().filter(|e| e.r).map(|e| e.id).collect();
            if rs.is_empty() {
                sleep_ms(300);
                continue;
            }
            let to = *self.r.pick(&rs);
            let m = self.n();
            let op = hex(serde_json::to_value(&Op::leaf(&format!("e{to}"))).unwrap().as_str().unwrap());
            let (format, seed, len) = self.fresh_payload();
            self.want(node, format!("msg {m} u {op} 0 {format} {seed} {len}"), "ok");
            self.want(node, format!("send {from} {m}"), "ok");
            let msg = Msg { id: m as u64, kind: "", format, seed, len, objs: vec![], regions: vec![] };
            self.ep(to).due.entry(from).or_default().push_back(msg);
            while !OUT.violated() && self.ep(to).due.get(&from).map_or(false, |q| !q.is_empty()) {
                self.recv(to);
            }
        }
    }

    fn join(&mut self, node: usize, extra: Option<String>) {
        self.flush(None);
        let id = self.n();
        let mut label: Vec<String> = vec![format!("e{id}")];
        for x in ["a", "b", "c", "größe", "with space", "a,b"] {
            if self.r.pct(35) {
                label.push(x.into());
            }
        }
        if self.r.pct(20) {
            label.push(label[0].clone());
        }
        label.extend(extra.clone());
        self.r.shuffle(&mut label);
        let half = match self.r.below(10) {
            0 if extra.is_none() => "s",
            1 => "r",
            _ => "b",
        };
        let aff = self.host.is_none() || self.r.pct(50);
        let timeout = if self.r.pct(50) { INF } else { 20_000 };
        let line = format!(
            "join {id} {} {} {} {} {timeout} {half}",
            hex(&self.ident),
            label.iter().map(|x| hex(x)).collect::<Vec<_>>().join(","),
            hex(&self.token),
            aff as u8
        );
        if !self.want(node, line, "ok") {
            return;
        }
        self.host.get_or_insert(node);
        OUT.count("joins", 1);
        let mut e = Ep {
            id,
            node,
            label: label.into_iter().collect(),
            s: half != "r",
            r: half != "s",
            dirty: false,
            unread: 0,
            due: BTreeMap::new(),
        };
        if e.r {
            let (hit, rest): (Vec<_>, Vec<_>) = std::mem::take(&mut self.waiting).into_iter().partition(|w| e.label.contains(&w.label));
            self.waiting = rest;
            for w in hit {
                if w.lasts {
                    OUT.count("waited", 1);
                    e.due.entry(w.from).or_default().push_back(w.msg);
                } else if now_ns() - w.sent_ns < 400_000_000 {
                    harness_error("a message that is to expire was given no time to");
                } else {
                    OUT.count("expired", 1);
                }
            }
        }
        self.eps.push(e);
    }

    fn failing_join(&mut self, node: usize) {
        let id = self.n();
        let (ident, token, aff, timeout, want) = match self.r.below(4) {
            0 => (hex(&self.ident), hex(&format!("{}x", self.token)), 1, INF, "token"),
            1 if !self.token.is_empty() => (hex(&self.ident), hex(""), 0, 10_000, "token"),
            1 | 2 => (hex(&format!("{}.nobody", self.ident)), hex("t"), 0, *self.r.pick(&[0, 1, 60, 150]), "timeout"),
            _ => ("ff".to_owned(), hex("t"), 0, 100, if self.kinds[node] == "rust" { return } else { "unknown" }),
        };
        let t = now_ns();
        if self.want(node, format!("join {id} {ident} 61 {token} {aff} {timeout} b"), want) && want == "timeout" {
            let took = (now_ns() - t) / 1_000_000;
            if took < timeout {
                self.bad(node, "join", &format!("timeout after {took} ms"), &format!("timeout after {timeout} ms"));
            }
        }
        OUT.count("refused", 1);
    }

    fn half_drop(&mut self, i: usize) {
        let (id, node) = (self.eps[i].id, self.eps[i].node);
        if self.eps[i].s && self.r.pct(50) {
            self.flush(Some(id));
            self.want(node, format!("sdrop {id}"), "ok");
            self.eps[i].s = false;
        } else if self.eps[i].r {
            self.xdrop(i);
        }
        if !self.eps[i].s && !self.eps[i].r {
            self.eps.remove(i);
        }
    }

    fn xdrop(&mut self, i: usize) {
        let (id, node) = (self.eps[i].id, self.eps[i].node);
        self.want(node, format!("xdrop {id}"), "ok");
        self.eps[i].r = false;
        for (_, q) in std::mem::take(&mut self.eps[i].due) {
            for m in q {
                for g in m.regions {
                    self.regions[g].lost = true;
                    self.regions[g].live -= 1;
                }
            }
        }
    }

    // ------------------------------------------------------------ messages

    fn fresh_payload(&mut self) -> (u16, u64, usize) {
        let len = match self.r.below(12) {
            0 => 0,
            1 => 1,
            2 => self.r.range(30_000, 60_000),
            _ => self.r.below(300),
        };
        // No two messages look alike
        let format = if len < 8 { self.n() as u16 } else { *self.r.pick(&[0, 1, 255, 256, 0x1234, u16::MAX]) };
        (format, self.r.u64(), len as usize)
    }

    /// One larger than the bus transports can be made, looked at and dropped.
    fn large(&mut self, node: usize) {
        if self.kinds[node] == "rust" {
            return;
        }
        let m = self.n();
        let len = *self.r.pick(&[65_535, 65_536, 65_537, 100_000, 131_072, 200_001]);
        let x = Msg { id: m as u64, kind: "", format: self.r.u64() as u16, seed: self.r.u64(), len, objs: vec![], regions: vec![] };
        let op = hex(serde_json::to_value(&Op::leaf("a")).unwrap().as_str().unwrap());
        self.want(node, format!("msg {m} m {op} 0 {} {} {len}", x.format, x.seed), "ok");
        self.want(node, format!("mdata {m}"), &sum(&x));
        self.want(node, format!("mdrop {m}"), "ok");
        OUT.count("large", 1);
    }

    fn send(&mut self) {
        let senders: Vec<usize> = (0..self.eps.len()).filter(|i| self.eps[*i].s).collect();
        if senders.is_empty() {
            return;
        }
        let i = *self.r.pick(&senders);
        let (from, node) = (self.eps[i].id, self.eps[i].node);
        let mut pool: Vec<String> = vec!["a".into(), "b".into(), "c".into(), "größe".into(), "with space".into(), "a,b".into()];
        for e in &self.eps {
            pool.push(format!("e{}", e.id));
        }
        let waits = self.r.pct(8);
        let op = if waits {
            Op::leaf(&format!("w{}", self.next))
        } else if self.r.pct(35) {
            Op::leaf(&format!("e{}", self.r.pick(&self.eps).id))
        } else {
            Op::random(&mut self.r, &pool, 4)
        };
        let mut text = serde_json::to_value(&op).unwrap().as_str().unwrap().to_owned();
        text = hex(&text);
        let (format, seed, len) = self.fresh_payload();
        let kind = match (self.kinds[node], if waits { 9 } else { self.r.below(10) }) {
            ("rust", 0) => "bad",
            ("rust", 1) => "foreign",
            _ => "",
        };
        let to: Vec<usize> = (0..self.eps.len()).filter(|i| self.eps[*i].r && op.eval(&self.eps[*i].label)).collect();
        // A decode error does not say who sent the message
        let told_apart = to.iter().all(|i| self.eps[*i].due.iter().all(|(f, q)| *f == from || q.iter().all(|m| m.kind != "bad")));
        let kind = if kind == "bad" && !told_apart { "" } else { kind };
        let mut uni = self.r.pct(40);
        if uni && to.len() > 1 {
            // One of them, whichever: the others must be told apart from those that have something coming
            if self.r.pct(50) && kind.is_empty() {
                for i in to.clone() {
                    let id = self.eps[i].id;
                    while self.ep(id).pending() > 0 {
                        self.recv(id);
                    }
                }
            } else {
                uni = false;
            }
        }
        let lasts = self.r.pct(60);
        let brief = waits && lasts && self.r.pct(25);
        if brief {
            self.flush(None);
        }
        let ttl = match (waits, to.is_empty()) {
            (true, _) if brief => *self.r.pick(&[950, 990]),
            // Just beyond 16 bits, too
            (true, _) if lasts => *self.r.pick(&[60_000, 65_536, 65_540, 131_075, 3_600_000, 1 << 31, u32::MAX as u64]),
            (true, _) => *self.r.pick(&[0, 1, 20]),
            (_, true) => 0,
            _ => *self.r.pick(&[0, 0, 0, 60_000]),
        };
        let m = self.n();
        self.want(
            node,
            format!("msg {m} {} {text} {ttl} {format} {seed} {len}{}", if uni { "u" } else { "m" }, if kind.is_empty() { String::new() } else { format!(" {kind}") }),
            "ok",
        );
        let mut msg = Msg {
            id: m as u64,
            kind,
            format,
            seed,
            len,
            objs: vec![],
            regions: vec![],
        };
        if kind != "bad" && kind != "foreign" {
            let n = if self.r.pct(4) { 40 } else { self.r.below(4) };
            for _ in 0..if self.r.pct(40) { n } else { 0 } {
                // A new object, or one that was received before
                let own: Vec<usize> = (0..self.objs.len()).filter(|i| self.objs[*i].0 == node).collect();
                let (h, id, seed) = if !own.is_empty() && self.r.pct(50) {
                    let i = *self.r.pick(&own);
                    let (_, h, id, seed) = self.objs.swap_remove(i);
                    (h, id, seed)
                } else {
                    let h = self.n();
                    let seed = self.r.u64();
                    let id = self.ask(node, format!("obj {h} {seed}"));
                    (h, id, seed)
                };
                self.want(node, format!("mobj {m} {h}"), "ok");
                msg.objs.push((id, seed));
                OUT.count("objects_sent", 1);
            }
            let n = if self.r.pct(4) { 20 } else { self.r.below(5) };
            for _ in 0..if self.r.pct(50) && !(waits && !lasts) { n } else { 0 } {
                if self.r.pct(40) {
                    self.new_region(node);
                }
                let own: Vec<usize> = (0..self.handles.len()).filter(|i| self.handles[*i].0 == node).collect();
                if own.is_empty() {
                    continue;
                }
                let i = *self.r.pick(&own);
                let (_, h, g) = self.handles.swap_remove(i);
                self.want(node, format!("mreg {m} {h}"), "ok");
                msg.regions.push(g);
                OUT.count("regions_sent", 1);
            }
        }
        if self.r.pct(6) {
            // Thought better of it
            if self.kinds[node] != "rust" {
                self.want(node, format!("mdata {m}"), &sum(&msg));
            }
            self.want(node, format!("mdrop {m}"), "ok");
            for g in &msg.regions {
                self.regions[*g].live -= 1;
            }
            OUT.count("messages_dropped", 1);
            return;
        }
        let sent_ns = now_ns();
        // Copies first: the sender's one goes with the call
        let line = format!("send {from} {m}");
        self.want(node, line, "ok");
        self.ep(from).dirty = true;
        OUT.count("sent", 1);
        let copies = if kind == "foreign" { 0 } else if uni { to.len().min(1) } else { to.len() };
        for g in &msg.regions {
            self.regions[*g].live += copies as i64 - 1 + (waits && lasts) as i64;
        }
        if waits {
            let Op::L(label) = op else { unreachable!() };
            self.waiting.push(Waiting { msg, from, label: label.clone(), lasts, sent_ns });
            if brief {
                // Somebody comes for it in time
                let node = self.r.below(self.nodes.len() as u64) as usize;
                self.join(node, Some(label));
                if now_ns() - sent_ns > 850_000_000 {
                    harness_error("a join took most of a second");
                }
                OUT.count("waited_briefly", 1);
            }
            return;
        }
        if uni && to.len() > 1 {
            self.one_of(from, &to, msg);
            return;
        }
        if kind != "foreign" {
            for i in &to {
                self.eps[*i].due.entry(from).or_default().push_back(msg.clone());
            }
        }
        // One that does not read holds up the bus once its buffers are full
        let ids: Vec<i32> = to.iter().map(|i| self.eps[*i].id).collect();
        for id in ids {
            self.ep(id).unread += len + 1500;
            if self.ep(id).unread > 25_000 {
                while self.ep(id).pending() > 0 && !OUT.violated() {
                    self.recv(id);
                }
                self.recv(id);
                self.ep(id).unread = 0;
            }
        }
    }

    /// Exactly one of these endpoints gets the message, within reasonable time.
    fn one_of(&mut self, from: i32, to: &[usize], msg: Msg) {
        let ids: Vec<i32> = to.iter().map(|i| self.eps[*i].id).collect();
        let start = now_ns();
        let mut t = 0;
        loop {
            for id in &ids {
                let node = self.ep(*id).node;
                let m = self.n();
                let got = self.ask(node, format!("recv {id} {m} {t}"));
                if got == "ok" {
                    self.examine(node, m, from, &msg);
                    OUT.count("unicasts_among_several", 1);
                    return;
                }
                if got != "timeout" {
                    self.bad(node, "recv", &got, "the message or a timeout");
                    return;
                }
            }
            t = (t + 1).min(20);
            if now_ns() - start > 10_000_000_000 {
                let node = self.ep(ids[0]).node;
                self.bad(node, "recv", "none of the matching endpoints got it", "a unicast message");
                return;
            }
        }
    }

    fn recv(&mut self, id: i32) {
        let (node, pending) = (self.ep(id).node, self.ep(id).pending());
        let m = self.n();
        if pending == 0 {
            let t = *self.r.pick(&[0, 0, 1, 15, 40]);
            let at = now_ns();
            if self.want(node, format!("recv {id} {m} {t}"), "timeout") && now_ns() - at < t * 1_000_000 {
                self.bad(node, "recv", "timeout too early", &format!("timeout {t}"));
            }
            OUT.count("empty_recvs", 1);
            return;
        }
        let t = *self.r.pick(&[INF, 30_000, 45_000]);
        let got = self.ask(node, format!("recv {id} {m} {t}"));
        match got.as_str() {
            "decode" => {
                let e = self.ep(id);
                for q in e.due.values_mut() {
                    if q.front().map_or(false, |m| m.kind == "bad") {
                        q.pop_front();
                        OUT.count("decode_errors", 1);
                        return;
                    }
                }
                self.bad(node, "recv", "decode", "no decode error");
            }
            "ok" => {
                let data = self.ask(node, format!("mdata {m}"));
                let e = self.ep(id);
                let mut from = None;
                for (f, q) in e.due.iter_mut() {
                    if q.front().map_or(false, |x| x.kind.is_empty() && data == sum(x)) {
                        from = Some((*f, q.pop_front().unwrap()));
                        break;
                    }
                }
                let heads: Vec<String> = e.due.values().filter_map(|q| q.front().map(sum)).collect();
                match from {
                    Some((f, x)) => self.examine(node, m, f, &x),
                    None => self.bad(node, &format!("recv {id}"), &data, &format!("one of {heads:?}")),
                }
            }
            _ => {
                self.bad(node, &format!("recv {id} .. {t}"), &got, "one of the pending messages");
                // Nothing else can be expected from here
                self.ep(id).due.clear();
                OUT.finish();
            }
        }
    }

    /// Everything a message in hand says about itself.
    /// Asked for before it is sent, with any timeout that is long enough.
    fn patient(&mut self) {
        let long = [60_000, 65_536, 65_537, 65_600, 131_080, 1 << 31, (1 << 31) + 1, u32::MAX as u64 - 1, INF];
        let t = *self.r.pick(&long);
        let rs: Vec<(i32, usize)> = self.eps.iter().filter(|e| e.r && e.pending() == 0).map(|e| (e.id, e.node)).collect();
        if rs.is_empty() {
            return;
        }
        let (id, node) = *self.r.pick(&rs);
        let ss: Vec<(i32, usize)> = self.eps.iter().filter(|e| e.s && e.node != node).map(|e| (e.id, e.node)).collect();
        if ss.is_empty() {
            return;
        }
        let (from, other) = *self.r.pick(&ss);
        let (format, seed, len) = self.fresh_payload();
        let m = self.n();
        let text = hex(serde_json::to_value(&Op::leaf(&format!("e{id}"))).unwrap().as_str().unwrap());
        let mode = if self.r.pct(50) { "u" } else { "m" };
        self.want(other, format!("msg {m} {mode} {text} 0 {format} {seed} {len}"), "ok");
        let m2 = self.n();
        let line = format!("recv {id} {m2} {t}");
        self.nodes[node].tell(&line);
        sleep_ms(*self.r.pick(&[0, 1, 5, 30, 110]));
        self.want(other, format!("send {from} {m}"), "ok");
        let got = self.nodes[node].told(&line);
        if got != "ok" {
            self.bad(node, &line, &got, "the message that was sent meanwhile");
            return;
        }
        let msg = Msg { id: m as u64, kind: "", format, seed, len, objs: vec![], regions: vec![] };
        let data = self.ask(node, format!("mdata {m2}"));
        if data != sum(&msg) {
            self.bad(node, &line, &data, &sum(&msg));
            return;
        }
        self.examine(node, m2, from, &msg);
        OUT.count("asked_before_sent", 1);
    }

    /// A join that has to wait for a controller.
    fn patient_join(&mut self) {
        let long = [60_000, 65_536, 65_537, 65_600, 131_080, 1 << 31, (1 << 31) + 1, u32::MAX as u64 - 1, INF];
        let t = *self.r.pick(&long);
        let node = self.r.below(self.nodes.len() as u64) as usize;
        let (a, b) = (self.n(), self.n());
        let id = hex(&format!("{}.later{a}", self.ident));
        let mut host = spawn(*self.r.pick(&["rust", self.kinds[node]]), 80);
        let line = format!("join {a} {id} 61 74 0 {t} b");
        self.nodes[node].tell(&line);
        sleep_ms(*self.r.pick(&[5, 50, 200]));
        let got = host.ask(&format!("join {b} {id} 62 74 1 20000 b"));
        if got != "ok" {
            self.bad(node, "join", &got, "ok");
        }
        let got = self.nodes[node].told(&line);
        if got != "ok" {
            self.bad(node, &line, &got, "ok");
        } else {
            self.want(node, format!("sdrop {a}"), "ok");
            self.want(node, format!("xdrop {a}"), "ok");
            OUT.count("joins_before_controller", 1);
        }
        for half in ["sdrop", "xdrop"] {
            let got = host.ask(&format!("{half} {b}"));
            if got != "ok" {
                self.bad(node, half, &got, "ok");
            }
        }
        host.quit("quit");
    }

    fn examine(&mut self, node: usize, m: i32, _from: i32, x: &Msg) {
        OUT.count("received", 1);
        self.want(node, format!("mdata {m}"), &sum(x));
        for (i, (id, _)) in x.objs.iter().enumerate() {
            self.want(node, format!("oget {m} {i}"), &id.clone());
            OUT.count("objects_examined", 1);
        }
        for i in [x.objs.len() as u64, x.objs.len() as u64 + 7, 1 << 40, u64::MAX] {
            if self.r.pct(30) {
                self.want(node, format!("oget {m} {i}"), "null");
                OUT.count("outside", 1);
            }
        }
        if self.kinds[node] == "c" {
            for (i, g) in x.regions.clone().into_iter().enumerate() {
                let b = &self.regions[g].bytes;
                let want = format!("{} {}", b.len(), hash(b));
                self.want(node, format!("rget {m} {i}"), &want);
            }
            self.want(node, format!("rget {m} {}", x.regions.len()), "null");
        }
        self.held.push((node, m, x.clone()));
    }

    /// Takes something out of a message, or drops it.
    fn unpack(&mut self, k: usize) {
        let (node, m) = (self.held[k].0, self.held[k].1);
        let (n_o, n_r) = (self.held[k].2.objs.len() as u64, self.held[k].2.regions.len() as u64);
        match self.r.below(4) {
            0 => {
                let i = self.r.below(n_o + 1);
                let h = self.n();
                if i < n_o {
                    let (id, seed) = self.held[k].2.objs.remove(i as usize);
                    self.want(node, format!("otake {m} {i} {h}"), &id.clone());
                    self.objs.push((node, h, id, seed));
                    OUT.count("objects_taken", 1);
                } else {
                    self.want(node, format!("otake {m} {i} {h}"), "null");
                    OUT.count("outside", 1);
                }
            }
            1 | 2 => {
                let i = self.r.below(n_r + 1);
                let h = self.n();
                if i < n_r {
                    let g = self.held[k].2.regions.remove(i as usize);
                    self.want(node, format!("rtake {m} {i} {h}"), "ok");
                    self.handles.push((node, h, g));
                    OUT.count("regions_taken", 1);
                } else {
                    let i = if self.r.pct(50) { i } else { u64::MAX - i };
                    self.want(node, format!("rtake {m} {i} {h}"), "null");
                    OUT.count("outside", 1);
                }
            }
            _ => {
                self.want(node, format!("mdrop {m}"), "ok");
                let (_, _, x) = self.held.swap_remove(k);
                for g in x.regions {
                    self.regions[g].live -= 1;
                }
            }
        }
    }

    // ------------------------------------------------------------ regions

    fn new_region(&mut self, node: usize) {
        let h = self.n();
        if self.r.pct(5) {
            let size = *self.r.pick(&[u64::MAX, u64::MAX - 11, i64::MAX as u64]);
            self.want(node, format!("rnew {h} {size}"), "unknown");
            OUT.count("outside", 1);
            return;
        }
        let size = *self.r.pick(&[0u64, 1, 12, 100, 4084, 4085, 4096, 8192, 20_000]) as usize;
        if self.want(node, format!("rnew {h} {size}"), "ok") {
            self.handles.push((node, h, self.regions.len()));
            self.regions.push(Region { bytes: vec![0; size], live: 1, registry: false, lost: false });
        }
    }

    fn region_op(&mut self, k: usize) {
        let (node, h, g) = self.handles[k];
        let n = self.regions[g].bytes.len() as u64;
        OUT.count("region_ops", 1);
        match self.r.below(10) {
            0..=2 => {
                let (a, b) = self.window(n);
                let seed = self.r.u64();
                if self.want(node, format!("rwrite {h} {a} {} {seed}", b - a), "ok") {
                    let v = Rng::new(seed).fill((b - a) as usize);
                    self.regions[g].bytes[a as usize..b as usize].copy_from_slice(&v);
                }
            }
            3..=4 => {
                let (a, b) = self.window(n);
                let s = &self.regions[g].bytes[a as usize..b as usize];
                let want = format!("{} {}", b - a, hash(s));
                self.want(node, format!("rmap {h} {a} {}", b - a), &want);
            }
            5 => {
                let (a, _) = self.window(n);
                let s = &self.regions[g].bytes[a as usize..];
                let want = format!("{} {}", s.len(), hash(s));
                let minus = *self.r.pick(&[-1, -1, -77, i64::MIN]);
                self.want(node, format!("rmap {h} {a} {minus}"), &want);
            }
            6 => {
                let (a, s) = *self.r.pick(&[
                    (0, n as i64 + 1),
                    (n, 1),
                    (n + 1, 0),
                    (n + 1, -1),
                    (n / 2, n as i64),
                    (u64::MAX, 1),
                    (u64::MAX, -1),
                    (1, i64::MAX),
                    (0, i64::MAX),
                    (n + 5000, 100),
                ]);
                if n == 0 && a == 0 && s == 0 {
                    return;
                }
                if a == n / 2 && n < 2 {
                    return;
                }
                self.want(node, format!("rmap {h} {a} {s}"), "null");
                OUT.count("outside", 1);
            }
            7 => self.count(k),
            8 => {
                let h2 = self.n();
                if self.want(node, format!("rclone {h} {h2}"), "ok") {
                    self.handles.push((node, h2, g));
                    self.regions[g].live += 1;
                }
            }
            _ => {
                self.want(node, format!("rdrop {h}"), "ok");
                self.handles.swap_remove(k);
                self.regions[g].live -= 1;
            }
        }
    }

    fn window(&mut self, n: u64) -> (u64, u64) {
        let a = self.r.below(n + 1);
        (a, self.r.range(a, n))
    }

    fn count(&mut self, k: usize) {
        let (node, h, g) = self.handles[k];
        let x = &self.regions[g];
        let (lo, lost) = (x.live, x.lost);
        let hi = lo + x.registry as i64;
        // Copies within the bus are released when their time has come
        let end = now_ns() + 10_000_000_000;
        loop {
            let got = self.ask(node, format!("rcount {h}"));
            let c: i64 = got.parse().unwrap_or(-1);
            if c >= lo && (c <= hi || lost) {
                break;
            }
            if now_ns() > end {
                self.bad(node, &format!("rcount {h}"), &got, &format!("{lo} to {hi}"));
                break;
            }
            sleep_ms(5);
        }
        OUT.count("counts_compared", 1);
    }

    // ------------------------------------------------------------ registries

    fn alloc(&mut self, k: usize) {
        let (node, id) = (self.registries[k].node, self.registries[k].id);
        let h = self.n();
        let tag: Option<String> = self.r.pick(&[None, None, Some("a"), Some("b"), Some("")]).map(|s| s.to_owned());
        let tag_text = tag.as_ref().map_or("null".to_owned(), |t| hex(t));
        if self.r.pct(5) {
            // A callback goes with the failure, silently
            let cb = if self.r.pct(50) { self.n() } else { -1 };
            self.want(node, format!("galloc {id} {} {tag_text} {cb} {h}", u64::MAX - 5), "unknown");
            self.sync_freed(node);
            if self.freed[node].contains_key(&cb) {
                self.bad(node, "galloc", "free called", "no call after a failed allocation");
            }
            OUT.count("failed_allocs", 1);
            return;
        }
        let min = *self.r.pick(&[16u64, 100, 150, 4000, 5000, 9000]);
        let cb = match self.r.below(5) {
            0 | 1 => self.n(),
            2 => 0, // the callback is null
            _ => -1,
        };
        if !self.want(node, format!("galloc {id} {min} {tag_text} {cb} {h}"), "ok") {
            return;
        }
        OUT.count("allocs", 1);
        let got = self.ask(node, format!("rmap {h} 0 -1"));
        let mut p = got.split(' ');
        let size: u64 = p.next().unwrap().parse().unwrap_or(0);
        let sum: u64 = p.next().unwrap_or("0").parse().unwrap_or(0);
        if size < min {
            self.bad(node, &format!("galloc {id} {min}"), &format!("{size} bytes"), "at least that");
            return;
        }
        let cb = (cb > 0).then_some(cb);
        // Whose memory is it?
        let same: Vec<usize> = (0..self.regions.len()).filter(|g| self.regions[*g].bytes.len() as u64 == size && hash(&self.regions[*g].bytes) == sum).collect();
        let zero = hash(&vec![0; size as usize]) == sum;
        let g = if zero {
            if size != min {
                self.bad(node, &format!("galloc {id} {min}"), &format!("{size} new bytes"), "as many as asked for");
            }
            self.regions.push(Region { bytes: vec![0; size as usize], live: 1, registry: true, lost: false });
            self.registries[k].allocs.push(Alloc { region: self.regions.len() - 1, tag, cb });
            self.regions.len() - 1
        } else {
            let Some(i) = self.registries[k].allocs.iter().position(|a| same.contains(&a.region)) else {
                self.bad(node, &format!("galloc {id} {min}"), "memory with foreign content", "new or returned memory");
                return;
            };
            let a = &mut self.registries[k].allocs[i];
            let g = a.region;
            if a.tag != tag {
                let t = format!("tag {:?}", a.tag);
                self.bad(node, "galloc", &t, &format!("{tag:?}"));
                return;
            }
            let old = std::mem::replace(&mut a.cb, cb);
            if self.regions[g].live > 0 {
                self.bad(node, "galloc", "memory still in use", "memory not in use");
                return;
            }
            if let Some(old) = old {
                self.must[node].insert(old);
            }
            OUT.count("reused", 1);
            self.regions[g].live = 1;
            g
        };
        self.handles.push((node, h, g));
        let seed = self.r.u64();
        if self.want(node, format!("rwrite {h} 0 {size} {seed}"), "ok") {
            self.regions[g].bytes = Rng::new(seed).fill(size as usize);
        }
        self.check_freed(k, false);
    }

    fn sync_freed(&mut self, node: usize) {
        let got = self.ask(node, "freed".into());
        let mut m = BTreeMap::new();
        for x in got.split(' ').skip(1) {
            *m.entry(x.parse::<i32>().unwrap()).or_insert(0) += 1;
        }
        self.freed[node] = m;
    }

    /// No callback twice, none of a live allocation; after maintenance, all of the dead ones.
    fn check_freed(&mut self, k: usize, maintained: bool) {
        let (node, id) = (self.registries[k].node, self.registries[k].id);
        let end = now_ns() + 10_000_000_000;
        loop {
            self.sync_freed(node);
            let twice: Vec<i32> = self.freed[node].iter().filter(|x| *x.1 > 1).map(|x| *x.0).collect();
            if !twice.is_empty() {
                self.bad(node, "freed", &format!("{twice:?} twice"), "once");
                return;
            }
            let mut missing = vec![];
            let mut early = vec![];
            for a in &self.registries[k].allocs {
                let Some(cb) = a.cb else { continue };
                let (live, lost) = (self.regions[a.region].live, self.regions[a.region].lost);
                let ran = self.freed[node].contains_key(&cb);
                if live > 0 && ran {
                    early.push(cb);
                }
                if live == 0 && !lost && !ran {
                    missing.push(cb);
                }
            }
            for cb in &self.must[node] {
                if !self.freed[node].contains_key(cb) {
                    missing.push(*cb);
                }
            }
            if !early.is_empty() {
                self.bad(node, "freed", &format!("{early:?}"), "no call while in use");
                return;
            }
            if !maintained || missing.is_empty() {
                return;
            }
            if now_ns() > end {
                self.bad(node, "gmaintain", &format!("{missing:?} not called"), "called after maintenance");
                return;
            }
            // Copies within the bus go away by themselves
            sleep_ms(5);
            self.want(node, format!("gmaintain {id}"), "ok");
        }
    }

    fn registry_op(&mut self) {
        if self.registries.is_empty() || self.r.pct(5) {
            let node = self.r.below(self.nodes.len() as u64) as usize;
            let id = self.n();
            self.want(node, format!("greg {id}"), "ok");
            self.registries.push(Registry { node, id, allocs: vec![] });
            return;
        }
        let k = self.r.below(self.registries.len() as u64) as usize;
        match self.r.below(12) {
            0..=8 => self.alloc(k),
            9..=10 => {
                let (node, id) = (self.registries[k].node, self.registries[k].id);
                self.want(node, format!("gmaintain {id}"), "ok");
                self.check_freed(k, true);
            }
            _ => self.drop_registry(k),
        }
    }

    fn drop_registry(&mut self, k: usize) {
        self.check_freed(k, false);
        let g = self.registries.swap_remove(k);
        self.want(g.node, format!("gdrop {}", g.id), "ok");
        for a in g.allocs {
            self.regions[a.region].registry = false;
            if let Some(cb) = a.cb {
                self.must[g.node].insert(cb);
            }
        }
        self.sync_freed(g.node);
        let missing: Vec<i32> = self.must[g.node].iter().filter(|cb| !self.freed[g.node].contains_key(cb)).cloned().collect();
        // Those of other registries of this node may still wait for their maintenance
        let own: Vec<i32> = missing.into_iter().filter(|cb| !self.registries.iter().any(|r| r.allocs.iter().any(|a| a.cb == Some(*cb)))).collect();
        if !own.is_empty() {
            self.bad(g.node, "gdrop", &format!("{own:?} not called"), "called at the latest when the registry goes");
        }
        OUT.count("registries_dropped", 1);
    }

    // ------------------------------------------------------------ the end

    fn end(&mut self) {
        self.flush(None);
        let ids: Vec<i32> = self.eps.iter().filter(|e| e.r).map(|e| e.id).collect();
        for id in ids {
            while self.ep(id).pending() > 0 {
                self.recv(id);
            }
            self.recv(id);
        }
        for k in 0..self.handles.len() {
            self.count(k);
        }
        while !self.held.is_empty() {
            let k = self.r.below(self.held.len() as u64) as usize;
            self.unpack(k);
        }
        for (node, h, id, seed) in std::mem::take(&mut self.objs) {
            let want = format!("{id} {}", hash(&Rng::new(seed).fill(32)));
            self.want(node, format!("oid {h}"), &want);
            let got = self.ask(node, format!("odrop {h}"));
            if got == id {
                self.bad(node, "odrop", &got, "closed");
            }
        }
        while !self.handles.is_empty() {
            let (node, h, g) = self.handles.swap_remove(0);
            let want = format!("{} {}", self.regions[g].bytes.len(), hash(&self.regions[g].bytes));
            self.want(node, format!("rmap {h} 0 -1"), &want);
            self.want(node, format!("rdrop {h}"), "ok");
            self.regions[g].live -= 1;
        }
        while !self.registries.is_empty() {
            self.drop_registry(0);
        }
        while !self.eps.is_empty() {
            let k = self.r.below(self.eps.len() as u64) as usize;
            self.half_drop(k);
        }
        for n in 0..self.nodes.len() {
            self.sync_freed(n);
            let ran: BTreeSet<i32> = self.freed[n].keys().cloned().collect();
            if ran != self.must[n] {
                let (a, b) = (format!("{ran:?}"), format!("{:?}", self.must[n]));
                self.bad(n, "freed", &a, &b);
            }
            if Some(n) != self.host {
                let got = self.ask(n, "fds".into());
                if got != self.base[n] {
                    let base = self.base[n].clone();
                    self.bad(n, "fds", &got, &base);
                }
                OUT.count("censuses", 1);
            }
        }
        for n in &mut self.nodes {
            n.quit("quit");
        }
    }
}

fn sum(x: &Msg) -> String {
    let d = Rng::new(x.seed).fill(x.len);
    format!("{} {} {}", x.format, d.len(), hash(&d))
}

pub fn exe() -> String {
    std::env::var("VH_FFI").unwrap_or_else(|_| harness_error("VH_FFI"))
}

pub fn spawn(kind: &'static str, i: usize) -> Lines {
    let me = std::env::current_exe().unwrap().to_string_lossy().into_owned();
    let name = format!("{kind}{i}");
    match kind {
        "rust" => Lines::spawn(&name, &me, &["bnode"], &[]),
        k => Lines::spawn(&name, &exe(), &[k], &[]),
    }
}

pub fn ffi(seed: u64) {
    start_canary();
    let mut r = Rng::of(&[seed, 24]);
    let mut kinds: Vec<&'static str> = vec![*r.pick(&["c", "cpp"])];
    for _ in 0..r.range(1, 3) {
        kinds.push(*r.pick(&["c", "cpp", "rust"]));
    }
    r.shuffle(&mut kinds);
    let nodes: Vec<Lines> = kinds.iter().enumerate().map(|(i, k)| spawn(k, i)).collect();
    let n = nodes.len();
    let mut s = Sim {
        ident: ident(&mut r),
        token: r.pick(&["", "tok", "größe"]).to_string(),
        nodes,
        kinds,
        base: vec![],
        eps: vec![],
        regions: vec![],
        handles: vec![],
        objs: vec![],
        held: vec![],
        registries: vec![],
        waiting: vec![],
        freed: vec![BTreeMap::new(); n],
        must: vec![BTreeSet::new(); n],
        next: 0,
        host: None,
        sig: vec![],
        r,
    };
    for i in 0..n {
        let v = format!("{} {}", ipmb::version(), ipmb::version_pre());
        s.want(i, "version".into(), &v);
        let b = s.ask(i, "fds".into());
        s.base.push(b);
    }
    if std::env::var("VH_VERSIONS").is_ok() && s.r.pct(15) {
        incompatible(&mut s);
    }
    let first = s.r.below(n as u64) as usize;
    s.join(first, None);
    let steps = s.r.range(60, 220);
    for _ in 0..steps {
        if OUT.violated() {
            OUT.finish();
        }
        let node = s.r.below(n as u64) as usize;
        match s.r.below(100) {
            0..=5 if s.eps.len() < 7 => s.join(node, None),
            6..=7 => s.failing_join(node),
            8..=10 if s.eps.len() > 2 => {
                let i = s.r.below(s.eps.len() as u64) as usize;
                s.half_drop(i);
            }
            11..=12 if !s.waiting.is_empty() => {
                // Somebody comes for what waits
                let w = s.r.below(s.waiting.len() as u64) as usize;
                let label = s.waiting[w].label.clone();
                let age = (now_ns() - s.waiting[w].sent_ns) / 1_000_000;
                if !s.waiting[w].lasts && age < 450 {
                    sleep_ms(450 - age);
                }
                s.join(node, Some(label));
            }
            13 => s.large(node),
            14..=15 => s.patient(),
            16 if s.r.pct(16) => s.patient_join(),
            14..=38 => s.send(),
            39..=58 => {
                let rs: Vec<i32> = s.eps.iter().filter(|e| e.r).map(|e| e.id).collect();
                if !rs.is_empty() {
                    let id = *s.r.pick(&rs);
                    s.recv(id);
                }
            }
            59..=70 => {
                if !s.held.is_empty() {
                    let k = s.r.below(s.held.len() as u64) as usize;
                    s.unpack(k);
                }
            }
            71..=75 => s.new_region(node),
            76..=88 => {
                if !s.handles.is_empty() {
                    let k = s.r.below(s.handles.len() as u64) as usize;
                    s.region_op(k);
                }
            }
            _ => s.registry_op(),
        }
    }
    s.end();
    s.sig.push(format!("{seed}"));
    OUT.distinct(format!("{seed}"));
    OUT.sample(serde_json::json!({"participants": s.kinds, "commands of the first": s.nodes[0].log.iter().take(12).collect::<Vec<_>>()}));
    OUT.count("programs", 1);
}

/// A Rust participant of an incompatible version, in either role.
fn incompatible(s: &mut Sim) {
    let (_, exe) = crate::scen_join::versions().into_iter().filter(|v| v.1.contains("vh-v")).collect::<Vec<_>>().swap_remove(1);
    let other = s.nodes.len();
    let mut x = Lines::spawn(&format!("old{other}"), &exe, &["bnode"], &[]);
    let id = hex(&format!("{}.v", s.ident));
    let n = s.r.below(s.nodes.len() as u64) as usize;
    if s.r.pct(50) {
        let got = x.ask(&format!("join 1 {id} 61 74 1 20000 b"));
        if got == "ok" {
            s.want(n, format!("join 900 {id} 61 74 0 20000 b"), "version");
            OUT.count("incompatible", 1);
        }
    } else if s.kinds[n] != "rust" {
        // This one hosts a bus from now on
        let n2 = spawn(s.kinds[n], 90);
        s.nodes.push(n2);
        s.kinds.push(s.kinds[n]);
        let k = s.nodes.len() - 1;
        if s.want(k, format!("join 900 {id} 61 74 1 20000 b"), "ok") {
            let got = x.ask(&format!("join 1 {id} 61 74 0 20000 b"));
            if got != "version" {
                s.bad(k, "join", &got, "version");
            }
            OUT.count("incompatible", 1);
        }
        s.want(k, "sdrop 900".into(), "ok");
        s.want(k, "xdrop 900".into(), "ok");
        let mut l = s.nodes.pop().unwrap();
        s.kinds.pop();
        l.quit("quit");
    }
    x.quit("quit");
}
