//! C25: programs of recv, send and close in Node, every promise watched until it settles.
use crate::bnode::Any;
use crate::lines::*;
use crate::util::*;
use ipmb::{BytesMessage, EndpointReceiver, EndpointSender, MemoryRegion, Object, Selector};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use type_uuid::TypeUuid;

#[derive(Clone, Debug, PartialEq)]
struct Content {
    format: u16,
    data: Vec<u8>,
    objs: Vec<String>,
    regions: Vec<Vec<u8>>,
}

#[derive(Clone, Debug)]
enum Due {
    Good(Content),
    /// cannot be decoded
    Bad,
}

enum Ev {
    Ok(Content),
    Err(String),
}

struct P {
    ep: usize,
    timeout: Option<u64>,
    took_ms: u64,
    ev: Option<Ev>,
    stall: u64,
}

struct JEnd {
    id: u64,
    via: &'static str,
    label: String,
    all: bool,
    promises: Vec<usize>,
    due: BTreeMap<u64, Vec<Due>>,
    bad: usize,
    closed: bool,
    dead: bool,
}

struct Peer {
    label: String,
    s: EndpointSender<Any>,
    r: EndpointReceiver<BytesMessage>,
}

struct Flood {
    ep: usize,
    stop: Arc<AtomicBool>,
    thread: std::thread::JoinHandle<Vec<Due>>,
    key: u64,
}

struct Sim {
    r: Rng,
    js: Lines,
    ident: String,
    peers: Vec<Peer>,
    ends: Vec<JEnd>,
    ps: Vec<P>,
    floods: Vec<Flood>,
    next: u64,
    stall: u64,
    /// settled with a message or a decoding error
    last_ok: BTreeMap<usize, usize>,
}

fn content(format: u16, data: Vec<u8>) -> Content {
    Content { format, data, objs: vec![], regions: vec![] }
}

impl Sim {
    fn n(&mut self) -> u64 {
        self.next += 1;
        self.next
    }

    fn bad(&mut self, sig: &str, text: String) {
        let log = &self.js.log;
        let story: Vec<String> = log[log.len().saturating_sub(30)..].iter().map(|l| l.chars().take(90).collect()).collect();
        OUT.violation(sig, format!("{text}; {}", story.join("; ")));
    }

    fn ask(&mut self, line: String) -> String {
        let t = now_ns();
        let a = self.js.ask(&line);
        self.stall += (now_ns() - t) / 1_000_000;
        self.events();
        a
    }

    fn want(&mut self, line: String, want: &str) -> bool {
        let got = self.ask(line.clone());
        if got != want {
            self.bad(line.split(' ').find(|w| !w.starts_with('@')).unwrap_or(""), format!("'{}' gives '{got}' instead of '{want}'", line.chars().take(200).collect::<String>()));
        }
        got == want
    }

    /// Takes in what has settled.
    fn events(&mut self) {
        for l in std::mem::take(&mut self.js.events) {
            let w: Vec<&str> = l.split(' ').collect();
            let (i, took) = (w[1].parse::<usize>().unwrap(), w[2].parse::<u64>().unwrap() / 1_000_000);
            if self.ps[i].ev.is_some() {
                self.bad("twice", format!("promise {i} settled twice: {l}"));
                continue;
            }
            let hexes = |s: &str| -> Vec<u8> {
                if s == "-" {
                    return vec![];
                }
                (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
            };
            let ev = if w[3] == "ok" {
                let regions = if w[7] == "none" { vec![] } else { w[7].split(',').map(hexes).collect() };
                Ev::Ok(Content {
                    format: w[4].parse().unwrap(),
                    data: hexes(w[5]),
                    objs: if w[6] == "-" { vec![] } else { w[6].split(',').map(|s| s.to_owned()).collect() },
                    regions,
                })
            } else {
                Ev::Err(w[4].to_owned())
            };
            let e = self.ps[i].ep;
            // Expired ones are looked after every 200 ms; the rest is what the machine and this program may lose
            let slack = 2500 + worst_overshoot_ms() * 2 + (self.stall - self.ps[i].stall);
            let late = self.ps[i].timeout.map_or(false, |t| took > t + slack);
            match &ev {
                Ev::Err(x) if x == "timeout" => {
                    match self.ps[i].timeout {
                        None => self.bad("timeout", format!("promise {i} without a timeout timed out after {took} ms")),
                        Some(t) if took + 1 < t => self.bad("early", format!("promise {i} timed out after {took} of {t} ms")),
                        Some(t) if late => self.bad("late", format!("promise {i} timed out after {took} instead of {t} ms (slack {slack})")),
                        _ => {}
                    }
                    OUT.count("timed_out", 1);
                }
                Ev::Err(x) if x == "closed" => {
                    if !self.ends[e].closed {
                        self.bad("closed", format!("promise {i}: closed, but nobody did"));
                    }
                    OUT.count("closed", 1);
                }
                other => {
                    if late {
                        let t = self.ps[i].timeout;
                        self.bad("late", format!("promise {i} with timeout {t:?} settled with a message after {took} ms (slack {slack})"));
                    }
                    if let Ev::Err(_) = other {
                        OUT.count("decode_errors", 1);
                    } else {
                        OUT.count("resolved", 1);
                    }
                    let last = self.last_ok.insert(e, i);
                    if last.map_or(false, |l| l > i) {
                        self.bad("order", format!("promise {} got a message before {i}, which was there first", last.unwrap()));
                    }
                }
            }
            self.ps[i].took_ms = took;
            self.ps[i].ev = Some(ev);
        }
    }

    fn poll(&mut self, ms: u64) {
        let end = now_ns() + ms * 1_000_000;
        loop {
            let left = end.saturating_sub(now_ns()) / 1_000_000;
            self.js.poll(left);
            self.events();
            if now_ns() >= end {
                return;
            }
        }
    }

    // ------------------------------------------------------------ operations

    fn join(&mut self, via: &'static str, all: bool) {
        let id = self.n();
        let label = format!("j{id}");
        let mut labels = vec![hex(&label)];
        if all {
            labels.push(hex("all"));
        }
        let aff = (self.r.pct(50) || self.peers.is_empty() && self.ends.is_empty()) as u8;
        let t = self.r.pick(&["null", "undefined", "20000"]).to_string();
        let ident = hex(&self.ident);
        if !self.want(format!("{via}join {id} {ident} {} {} {aff} {t}", labels.join(","), hex("größe")), "ok") {
            return;
        }
        OUT.count("joins", 1);
        self.ends.push(JEnd { id, via, label, all, promises: vec![], due: BTreeMap::new(), bad: 0, closed: false, dead: false });
    }

    fn open(&mut self) -> Option<usize> {
        let v: Vec<usize> = (0..self.ends.len()).filter(|i| !self.ends[*i].closed && !self.ends[*i].dead).collect();
        (!v.is_empty()).then(|| *self.r.pick(&v))
    }

    fn recv(&mut self, e: usize, t: Option<u64>) {
        self.recvs(e, 1, &[t]);
    }

    fn recvs(&mut self, e: usize, n: usize, ts: &[Option<u64>]) {
        let first = self.ps.len();
        for k in 0..n {
            self.ps.push(P { ep: e, timeout: ts[k % ts.len()], took_ms: 0, ev: None, stall: self.stall });
            self.ends[e].promises.push(first + k);
        }
        let none = self.r.pick(&["null", "undefined"]).to_string();
        let ts: Vec<String> = ts.iter().map(|t| t.map_or(none.clone(), |t| t.to_string())).collect();
        let (via, id) = (self.ends[e].via, self.ends[e].id);
        self.want(format!("{via}recvs {id} {first} {n} {}", ts.join(",")), "ok");
        OUT.count("recvs", n as u64);
    }

    fn fresh(&mut self) -> (u16, Vec<u8>) {
        let n = match self.r.below(12) {
            0 => 0,
            1 => 1,
            2 => self.r.range(20_000, 60_000),
            _ => self.r.below(200),
        } as usize;
        // No two look alike
        let id = self.n();
        let mut data = self.r.fill(n);
        for (k, b) in id.to_le_bytes().iter().enumerate().take(n) {
            data[k] = *b;
        }
        (if n < 8 { id as u16 } else { *self.r.pick(&[0, 1, 255, 256, u16::MAX]) }, data)
    }

    fn rust_send(&mut self) {
        let Some(e) = self.open() else { return };
        let k = self.r.below(self.peers.len() as u64) as usize;
        let all = self.r.pct(20);
        let label = if all { "all".to_owned() } else { self.ends[e].label.clone() };
        let (format, data) = self.fresh();
        let kind = self.r.below(12);
        let mut c = content(format, data.clone());
        let any = match kind {
            0 => Any::Raw(BytesMessage::UUID, [vec![0xff], data].concat()),
            1 => Any::Raw([0x77; 16], data),
            _ => Any::Bytes(BytesMessage { format, data }),
        };
        let mut s = if all || self.r.pct(50) { Selector::multicast(label.as_str()) } else { Selector::unicast(label.as_str()) };
        s.ttl = ms(*self.r.pick(&[0, 60_000]));
        let mut m = ipmb::Message::new(s, any);
        if self.r.pct(30) {
            for _ in 0..self.r.range(1, 3) {
                let o = unsafe { Object::from_raw(libc::memfd_create(c"vh".as_ptr(), libc::MFD_CLOEXEC)) };
                let mut st: libc::stat = unsafe { std::mem::zeroed() };
                unsafe { libc::fstat(o.as_raw(), &mut st) };
                c.objs.push(st.st_ino.to_string());
                m.objects.push(o);
                OUT.count("objects", 1);
            }
        }
        if self.r.pct(30) {
            for _ in 0..self.r.range(1, 2) {
                let n = *self.r.pick(&[1usize, 5, 100, 4096]);
                let mut g = MemoryRegion::new(n).unwrap();
                let v = self.r.fill(n);
                g.map(..).unwrap().copy_from_slice(&v);
                m.memory_regions.push(g);
                c.regions.push(v);
                OUT.count("regions", 1);
            }
        }
        if let Err(x) = self.peers[k].s.send(m) {
            self.bad("rust-send", format!("{x:?}"));
        }
        OUT.count("sent", 1);
        let due = match kind {
            0 => Due::Bad,
            1 => return,
            _ => Due::Good(c),
        };
        self.owe(k as u64, e, all, due);
    }

    fn owe(&mut self, key: u64, e: usize, all: bool, due: Due) {
        let to: Vec<usize> = if all { (0..self.ends.len()).filter(|i| self.ends[*i].all && !self.ends[*i].closed && !self.ends[*i].dead).collect() } else { vec![e] };
        for i in to {
            self.ends[i].bad += matches!(due, Due::Bad) as usize;
            self.ends[i].due.entry(key).or_default().push(due.clone());
        }
    }

    fn flood(&mut self, e: usize, n: u64, gap_us: u64) {
        let key = self.n() + 1_000_000;
        let k = self.r.below(self.peers.len() as u64) as usize;
        let s = self.peers[k].s.clone();
        let label = self.ends[e].label.clone();
        let stop = Arc::new(AtomicBool::new(false));
        let st = stop.clone();
        let thread = std::thread::spawn(move || {
            let mut sent = vec![];
            for i in 0..n {
                if st.load(Ordering::Relaxed) {
                    break;
                }
                let data = [key.to_le_bytes().to_vec(), i.to_le_bytes().to_vec()].concat();
                let m = ipmb::Message::new(Selector::unicast(label.as_str()), Any::Bytes(BytesMessage { format: 9, data: data.clone() }));
                if let Err(x) = s.send(m) {
                    OUT.violation("rust-send", format!("{x:?}"));
                    break;
                }
                sent.push(Due::Good(content(9, data)));
                if gap_us > 0 {
                    std::thread::sleep(std::time::Duration::from_micros(gap_us));
                }
            }
            sent
        });
        self.floods.push(Flood { ep: e, stop, thread, key });
        OUT.count("floods", 1);
    }

    fn end_floods(&mut self, only: Option<usize>) {
        for f in std::mem::take(&mut self.floods) {
            if only.map_or(false, |o| o != f.ep) {
                self.floods.push(f);
                continue;
            }
            if only.is_some() || f.thread.is_finished() {
                f.stop.store(true, Ordering::Relaxed);
            }
            let sent = loop {
                // The other side is to go on
                if f.thread.is_finished() {
                    break f.thread.join().unwrap();
                }
                self.poll(2);
            };
            OUT.count("sent", sent.len() as u64);
            self.ends[f.ep].due.insert(f.key, sent);
        }
    }

    fn js_send(&mut self) {
        let Some(e) = self.open() else { return };
        let (via, id) = (self.ends[e].via, self.ends[e].id);
        let (format, data) = self.fresh();
        let hexed = |d: &[u8]| if d.is_empty() { "-".to_owned() } else { d.iter().map(|b| format!("{b:02x}")).collect() };
        let mut buffers = vec![];
        if self.r.pct(50) {
            let n = if self.r.pct(5) { 30 } else { self.r.below(4) };
            for _ in 0..n {
                let n = *self.r.pick(&[0usize, 1, 7, 100, 100, 5000]);
                buffers.push(self.r.fill(n));
            }
        }
        let bufs: String = buffers.iter().map(|b| format!(" {}", hexed(b))).collect();
        let ttl = *self.r.pick(&[0u64, 60_000, u32::MAX as u64]);
        if self.r.pct(60) {
            // To a Rust endpoint
            let k = self.r.below(self.peers.len() as u64) as usize;
            let others: Vec<String> = self.ends.iter().map(|e| e.label.clone()).collect();
            let mine = Op::leaf(&self.peers[k].label);
            let op = match self.r.below(3) {
                0 => mine,
                1 => Op::A(Box::new(mine), Box::new(Op::N(Box::new(Op::leaf(&others[0]))))),
                _ => Op::O(Box::new(Op::F), Box::new(Op::A(Box::new(Op::T), Box::new(mine)))),
            };
            let text = hex(serde_json::to_value(&op).unwrap().as_str().unwrap());
            let dbg = format!("{:?}", op.build());
            self.want(format!("op {text}"), &dbg);
            let mode = if self.r.pct(50) { "u" } else { "m" };
            if !self.want(format!("{via}send {id} {mode} {text} {ttl} {format} {}{bufs}", hexed(&data)), "ok") {
                return;
            }
            let got = self.peers[k].r.recv(Some(ms(30_000)));
            match got {
                Ok(mut m) => {
                    let regions: Vec<Vec<u8>> = m.memory_regions.iter_mut().map(|g| g.map(..).map(|b| b.to_vec()).unwrap_or_default()).collect();
                    // A buffer may travel in memory that was used before, and is longer
                    let same = regions.len() == buffers.len() && regions.iter().zip(&buffers).all(|(a, b)| a.len() >= b.len() && a[..b.len()] == b[..]);
                    if m.payload.format != format || m.payload.data != data || !m.objects.is_empty() || !same {
                        let lens: Vec<(usize, usize)> = regions.iter().zip(&buffers).map(|(a, b)| (a.len(), b.len())).collect();
                        self.bad("content", format!("format {} for {format}, {} bytes for {}, regions {lens:?}", m.payload.format, m.payload.data.len(), data.len()));
                    }
                    OUT.count("received_from_node", 1);
                }
                Err(x) => self.bad("lost", format!("what Node sent gives {x:?}")),
            }
        } else {
            let Some(to) = self.open() else { return };
            let text = hex(serde_json::to_value(&Op::leaf(&self.ends[to].label)).unwrap().as_str().unwrap());
            if self.want(format!("{via}send {id} u {text} {ttl} {format} {}{bufs}", hexed(&data)), "ok") {
                let mut c = content(format, data);
                c.regions = buffers;
                self.owe(2_000_000 + id, to, false, Due::Good(c));
                OUT.count("node_to_node", 1);
            }
        }
    }

    fn rust_end(&mut self, label: &str) -> (ipmb::EndpointSender<Any>, ipmb::EndpointReceiver<BytesMessage>) {
        let mut o = ipmb::Options::new(self.ident.clone(), mk_label(&[label.to_owned()]), "größe");
        o.controller_affinity = self.r.pct(50);
        let Ok(x) = ipmb::join::<Any, BytesMessage>(o, Some(ms(30_000))) else { harness_error("join") };
        x
    }

    /// Node sends when nobody is there for it; somebody comes, in time or not.
    fn js_waiting(&mut self) {
        let Some(e) = self.open() else { return };
        let (via, id) = (self.ends[e].via, self.ends[e].id);
        let label = format!("w{}", self.n());
        let text = hex(serde_json::to_value(&Op::leaf(&label)).unwrap().as_str().unwrap());
        let ttl = *self.r.pick(&[0u64, 1, 20, 950, 990, 60_000, 65_536, 65_540, 131_075, 1 << 31, u32::MAX as u64]);
        let (format, data) = self.fresh();
        let line = |mode: &str, ttl: u64, d: &[u8]| {
            let d = if d.is_empty() { "-".to_owned() } else { d.iter().map(|b| format!("{b:02x}")).collect() };
            format!("{via}send {id} {mode} {text} {ttl} {format} {d}")
        };
        let mode = if self.r.pct(50) { "u" } else { "m" };
        let at = now_ns();
        if !self.want(line(mode, ttl, &data), "ok") {
            return;
        }
        // It has been routed once a later one has
        let k = self.r.below(self.peers.len() as u64) as usize;
        let peer = hex(serde_json::to_value(&Op::leaf(&self.peers[k].label)).unwrap().as_str().unwrap());
        if !self.want(format!("{via}send {id} u {peer} 0 7 -"), "ok") {
            return;
        }
        match self.peers[k].r.recv(Some(ms(30_000))) {
            Ok(m) if m.payload.format == 7 && m.payload.data.is_empty() => {}
            Ok(m) => return self.bad("content", format!("format {} and {} bytes instead of 7 and none", m.payload.format, m.payload.data.len())),
            Err(x) => return self.bad("lost", format!("what Node sent gives {x:?}")),
        }
        if ttl < 100 {
            sleep_ms(120);
        }
        let (s, mut r) = self.rust_end(&label);
        if (100..1000).contains(&ttl) && now_ns() - at > 850_000_000 {
            harness_error("a join took most of a second");
        }
        // Whatever waited is there before this one
        let end = [&data[..], b" the end"].concat();
        let mut m = ipmb::Message::new(Selector::unicast(label.as_str()), Any::Bytes(BytesMessage { format, data: end.clone() }));
        m.objects = vec![];
        if let Err(x) = s.send(m) {
            self.bad("rust-send", format!("{x:?}"));
        }
        let mut got = 0;
        loop {
            match r.recv(Some(ms(30_000))) {
                Ok(m) if m.payload.data == end => break,
                Ok(m) if m.payload.data == data && m.payload.format == format => got += 1,
                Ok(m) => return self.bad("content", format!("{} bytes for the {} that waited", m.payload.data.len(), data.len())),
                Err(x) => return self.bad("lost", format!("somebody who has just joined gets {x:?}")),
            }
        }
        if got != (ttl >= 100) as i32 {
            self.bad("waiting", format!("a message with a time-to-live of {ttl} ms arrived {got} times after {} ms", (now_ns() - at) / 1_000_000));
        }
        OUT.count(if ttl >= 100 { "waited" } else { "expired" }, 1);
    }

    /// What Node sends to several.
    fn js_spread(&mut self) {
        let Some(e) = self.open() else { return };
        let (via, id) = (self.ends[e].via, self.ends[e].id);
        let label = format!("g{}", self.n());
        let text = hex(serde_json::to_value(&Op::leaf(&label)).unwrap().as_str().unwrap());
        let mut to: Vec<_> = (0..self.r.range(2, 3)).map(|_| self.rust_end(&label)).collect();
        let n = self.r.range(1, 6) as usize;
        let modes: Vec<bool> = (0..n).map(|_| self.r.pct(50)).chain([true]).collect();
        for (i, m) in modes.iter().enumerate() {
            let ttl = *self.r.pick(&[0u64, 60_000]);
            if !self.want(format!("{via}send {id} {} {text} {ttl} {i} 00", if *m { "m" } else { "u" }), "ok") {
                return;
            }
        }
        let mut got = vec![vec![]; to.len()];
        for (k, (_, r)) in to.iter_mut().enumerate() {
            while got[k].last() != Some(&n) {
                match r.recv(Some(ms(30_000))) {
                    Ok(m) => got[k].push(m.payload.format as usize),
                    Err(x) => return self.bad("lost", format!("one of {} gets {x:?} after {:?} of {modes:?}", got.len(), got[k])),
                }
            }
        }
        for (i, m) in modes.iter().enumerate() {
            let times: Vec<usize> = got.iter().map(|g| g.iter().filter(|x| **x == i).count()).collect();
            let ok = if *m { times.iter().all(|t| *t == 1) } else { times.iter().sum::<usize>() == 1 };
            if !ok {
                return self.bad("spread", format!("a {} arrived {times:?} times", if *m { "multicast" } else { "unicast" }));
            }
        }
        if got.iter().any(|g| g.windows(2).any(|w| w[0] > w[1])) {
            self.bad("order", format!("{got:?}"));
        }
        OUT.count("spread", modes.len() as u64);
    }

    fn close(&mut self, e: usize) {
        let (via, id) = (self.ends[e].via, self.ends[e].id);
        let amid = self.floods.iter().any(|f| f.ep == e && !f.thread.is_finished());
        self.events();
        self.ends[e].closed = true;
        let got = self.ask(format!("{via}close {id}"));
        let took = got.strip_prefix("ok ").and_then(|t| t.parse::<u64>().ok()).unwrap_or(u64::MAX) / 1_000_000;
        if took > 5000 + 2 * worst_overshoot_ms() {
            self.bad("close", format!("close gives '{got}'"));
        }
        OUT.count("closes", 1);
        OUT.count("closes_amid_messages", amid as u64);
        if self.r.pct(50) {
            self.want(format!("{via}recv {id} 0 {}", self.r.clone().pick(&["null", "0", "50"])), "err closed");
        }
        if self.r.pct(30) {
            // Once more is no harm
            let again = self.ask(format!("{via}close {id}"));
            if !again.starts_with("ok ") {
                self.bad("close", format!("the second close gives '{again}'"));
            }
        }
        self.end_floods(Some(e));
        let pending = |s: &Self| s.ends[e].promises.iter().filter(|p| s.ps[**p].ev.is_none()).count();
        let end = now_ns() + 20_000_000_000;
        while pending(self) > 0 && now_ns() < end && !OUT.violated() {
            self.poll(3);
        }
        if pending(self) > 0 {
            let n = pending(self);
            self.bad("unsettled", format!("{n} promises still pending 20 s after close"));
        }
        if self.r.pct(50) {
            self.want(format!("{via}recv {id} 0 null"), "err closed");
        }
        self.check(e, false);
    }

    // ------------------------------------------------------------ verdicts

    fn outcomes(&self, e: usize) -> usize {
        self.ends[e]
            .promises
            .iter()
            .filter(|p| match &self.ps[**p].ev {
                Some(Ev::Ok(_)) => true,
                Some(Ev::Err(x)) => x != "timeout" && x != "closed",
                None => false,
            })
            .count()
    }

    /// The messages were given to the promises in order, each once, and (if all have been asked for) all of them.
    fn check(&mut self, e: usize, all: bool) {
        let mut at: BTreeMap<u64, usize> = BTreeMap::new();
        let mut bads = 0;
        let due = self.ends[e].due.clone();
        for p in self.ends[e].promises.clone() {
            match &self.ps[p].ev {
                Some(Ev::Ok(c)) => {
                    let mut found = None;
                    for (k, q) in &due {
                        let mut i = at.get(k).cloned().unwrap_or(0);
                        while matches!(q.get(i), Some(Due::Bad)) {
                            i += 1;
                        }
                        let Some(Due::Good(x)) = q.get(i) else { continue };
                        let regions = c.regions.len() == x.regions.len()
                            && c.regions.iter().zip(&x.regions).all(|(a, b)| if *k > 2_000_000 { a.len() >= b.len() && a[..b.len()] == b[..] } else { a == b });
                        if c.format == x.format && c.data == x.data && c.objs == x.objs && regions {
                            found = Some((*k, i + 1));
                            break;
                        }
                    }
                    match found {
                        Some((k, i)) => {
                            at.insert(k, i);
                        }
                        None => {
                            let text = format!(
                                "promise {p} of endpoint {} got format {} and {} bytes {:02x?}.., objects {:?}, {} regions, which is not next from anybody",
                                self.ends[e].id,
                                c.format,
                                c.data.len(),
                                &c.data[..c.data.len().min(16)],
                                c.objs,
                                c.regions.len()
                            );
                            self.bad("content", text);
                            return;
                        }
                    }
                    OUT.count("compared", 1);
                }
                Some(Ev::Err(x)) if x != "timeout" && x != "closed" => bads += 1,
                _ => {}
            }
        }
        let left: usize = due.iter().map(|(k, q)| q[at.get(k).cloned().unwrap_or(0)..].iter().filter(|d| matches!(d, Due::Good(_))).count()).sum();
        if bads > self.ends[e].bad || all && (left > 0 || bads < self.ends[e].bad) {
            let (n, b) = (self.ends[e].id, self.ends[e].bad);
            self.bad("lost", format!("endpoint {n}: {left} messages were given to nobody, {bads} decoding errors for {b}"));
        }
        OUT.count("histories", 1);
        if all {
            OUT.count("drained", 1);
        }
    }

    /// Asks for everything that is due.
    fn drain(&mut self, e: usize) {
        let total: usize = self.ends[e].due.values().map(|q| q.len()).sum();
        let end = now_ns() + 60_000_000_000;
        while !OUT.violated() {
            let pending = self.ends[e].promises.iter().filter(|p| self.ps[**p].ev.is_none() && self.ps[**p].timeout.is_none()).count();
            let have = self.outcomes(e);
            if have >= total {
                break;
            }
            if have + pending < total {
                let n = (total - have - pending).min(200);
                self.recvs(e, n, &[None]);
            }
            self.poll(5);
            if now_ns() > end {
                let id = self.ends[e].id;
                self.bad("lost", format!("endpoint {id}: {have} of {total} messages arrived within 60 s"));
                return;
            }
        }
        // Nothing is left for the next one (what was asked for before and is pending comes first)
        let t = *self.r.pick(&[0u64, 20]);
        self.recv(e, Some(t));
        let p = self.ps.len() - 1;
        let end = now_ns() + 30_000_000_000;
        while self.ps[p].ev.is_none() && now_ns() < end && !OUT.violated() {
            self.poll(3);
        }
        match &self.ps[p].ev {
            Some(Ev::Err(x)) if x == "timeout" => {}
            None => self.bad("unsettled", format!("promise {p} with a timeout of {t} ms is pending after 30 s")),
            _ => self.bad("surplus", format!("promise {p}: one message more than was sent")),
        }
        self.check(e, true);
    }
}

pub fn js(seed: u64) {
    start_canary();
    let mut r = Rng::of(&[seed, 25]);
    let addon = std::env::var("VH_ADDON").unwrap_or_else(|_| harness_error("VH_ADDON"));
    let script = std::env::var("VH_JS").unwrap_or_else(|_| harness_error("VH_JS"));
    let mut env = vec![("VH_ADDON", addon)];
    if let Ok(rt) = std::env::var("VH_NODE_PRELOAD") {
        env.push(("LD_PRELOAD", rt));
        env.push(("ASAN_OPTIONS", std::env::var("VH_NODE_ASAN").unwrap_or_default()));
    }
    let js = Lines::spawn("node", "node", &["--expose-gc", &script], &env);
    let ident = ident(&mut r);
    let mut s = Sim { r, js, ident, peers: vec![], ends: vec![], ps: vec![], floods: vec![], next: 0, stall: 0, last_ok: BTreeMap::new() };
    s.ps.push(P { ep: 0, timeout: None, took_ms: 0, ev: None, stall: 0 });
    // Warm up, and what a process has open afterwards
    s.want("gc".into(), "ok");
    let base = s.ask("fds".into());
    let node_first = s.r.pct(40);
    if node_first {
        s.join("", true);
    }
    for i in 0..s.r.range(1, 2) {
        let label = format!("r{i}");
        let mut o = ipmb::Options::new(s.ident.clone(), mk_label(&[label.clone()]), "größe");
        o.controller_affinity = true;
        match ipmb::join(o, Some(ms(30_000))) {
            Ok((tx, rx)) => s.peers.push(Peer { label, s: tx, r: rx }),
            Err(e) => harness_error(format!("join: {e:?}")),
        }
    }
    for _ in 0..s.r.range(1, 2) {
        s.join("", true);
    }
    let worker = s.r.pct(35);
    if worker {
        s.want("wstart 1".into(), "ok");
        s.join("@1 ", true);
    }
    let mut worker_on = worker;
    let steps = s.r.range(30, 110);
    for _ in 0..steps {
        if OUT.violated() {
            OUT.finish();
        }
        s.poll(0);
        let Some(e) = s.open() else {
            s.join("", false);
            continue;
        };
        match s.r.below(100) {
            0..=24 => {
                let t = *s.r.pick(&[None, None, Some(0), Some(1), Some(30), Some(100), Some(250), Some(700), Some(60_000), Some(65_540), Some(131_090), Some(1 << 31), Some(u32::MAX as u64)]);
                s.recv(e, t);
            }
            25..=30 => {
                let n = s.r.range(5, 60) as usize;
                s.recvs(e, n, &[None, Some(20), Some(200), Some(60_000)]);
            }
            31..=55 => s.rust_send(),
            56..=60 if s.floods.len() < 4 => {
                let (n, gap) = (s.r.range(10, 250), *s.r.pick(&[0u64, 200, 2000, 15_000]));
                s.flood(e, n, gap);
            }
            61..=74 => s.js_send(),
            75..=76 => s.js_waiting(),
            77..=78 => s.js_spread(),
            79..=82 => {
                let t = s.r.range(1, 250);
                s.want(format!("{}busy {t}", s.ends[e].via), "ok");
            }
            83..=89 => {
                let t = s.r.range(1, 300);
                s.poll(t);
            }
            90..=92 => {
                if s.r.pct(50) {
                    s.flood(e, 100_000, 100);
                    if s.r.pct(50) {
                        let n = s.r.range(1, 300) as usize;
                        s.recvs(e, n, &[None]);
                    }
                    s.poll(30);
                }
                s.close(e);
            }
            93..=94 if s.ends.len() < 6 => s.join("", false),
            95 if worker_on && s.r.pct(40) => {
                stop_worker(&mut s);
                worker_on = false;
            }
            _ => regions(&mut s),
        }
    }
    if s.r.pct(25) && !OUT.violated() {
        starve(&mut s);
    }
    let harsh = s.r.pct(30);
    if worker_on && s.r.pct(50) {
        stop_worker(&mut s);
        worker_on = false;
    }
    s.end_floods(None);
    for e in 0..s.ends.len() {
        if !s.ends[e].closed && !s.ends[e].dead && !OUT.violated() {
            s.drain(e);
        }
    }
    OUT.distinct(format!("{seed}"));
    OUT.sample(serde_json::json!({"commands": s.js.log.iter().take(14).map(|l| l.chars().take(120).collect::<String>()).collect::<Vec<_>>()}));
    OUT.count("programs", 1);
    if harsh && !OUT.violated() {
        // The process ends amid it all
        if let Some(e) = s.open() {
            s.flood(e, 5000, 50);
            s.recvs(e, 20, &[None, Some(1)]);
            let t = s.r.below(40);
            s.poll(t);
        }
        s.js.quit("exit");
        OUT.count("exits_amid_messages", 1);
        for f in s.floods.drain(..) {
            f.stop.store(true, Ordering::Relaxed);
            let _ = f.thread.join();
        }
        return;
    }
    for e in 0..s.ends.len() {
        if !s.ends[e].closed && !s.ends[e].dead && !OUT.violated() {
            s.close(e);
        }
    }
    if worker_on {
        stop_worker(&mut s);
    }
    if !worker && !OUT.violated() {
        // Everything that was received goes with its last reference
        for p in 0..s.ps.len() {
            if let Some(Ev::Ok(c)) = &s.ps[p].ev {
                if !c.objs.is_empty() || !c.regions.is_empty() {
                    s.want(format!("drop {p}"), "ok");
                }
            }
        }
        for e in 0..s.ends.len() {
            let id = s.ends[e].id;
            s.want(format!("leave {id}"), "ok");
        }
        let end = now_ns() + 10_000_000_000;
        loop {
            s.want("gc".into(), "ok");
            let now = s.ask("fds".into());
            // The controller stays with its process
            if now == base || node_first || OUT.violated() {
                OUT.count("censuses", !node_first as u64);
                break;
            }
            if now_ns() > end {
                s.bad("fds", format!("{now} descriptors are open instead of {base}"));
                break;
            }
        }
    }
    if !OUT.violated() {
        s.js.quit("quit");
    }
}

/// Many promises with short timeouts, and messages that arrive too often for silence and too rarely for them all.
fn starve(s: &mut Sim) {
    let Some(e) = s.open() else { return };
    s.end_floods(Some(e));
    let n = s.r.range(100, 200) as usize;
    s.recvs(e, n, &[Some(10), Some(60), Some(150)]);
    let gap = *s.r.pick(&[30_000, 60_000, 120_000]);
    s.flood(e, 5_000_000 / gap, gap);
    s.poll(5_500);
    OUT.count("starved", 1);
}

/// Windows of a received region.
fn regions(s: &mut Sim) {
    let mut found = None;
    for (p, x) in s.ps.iter().enumerate().rev().take(60) {
        if let Some(Ev::Ok(c)) = &x.ev {
            if !c.regions.is_empty() && !s.ends[x.ep].dead {
                found = Some((p, x.ep, c.regions.clone()));
                break;
            }
        }
    }
    let Some((p, e, regions)) = found else { return };
    let i = s.r.below(regions.len() as u64) as usize;
    let g = &regions[i];
    let n = g.len() as u64;
    let (a, b) = (s.r.below(n + 1), s.r.below(n + 20));
    let via = s.ends[e].via;
    let (line, want) = if s.r.pct(40) {
        let size = -(s.r.range(1, i32::MAX as u64) as i64);
        (format!("{via}map {p} {i} {a} {size}"), Some(&g[a as usize..]))
    } else if s.r.pct(70) {
        (format!("{via}map {p} {i} {a} {b}"), (a + b <= n).then(|| &g[a as usize..(a + b) as usize]))
    } else {
        let (a, b) = *s.r.pick(&[(u32::MAX as u64, i32::MAX as i64), (n + 1, 0), (n + 5000, -1), (0, n as i64 + 1), (n, 1), (u32::MAX as u64, -1)]);
        (format!("{via}map {p} {i} {a} {b}"), None)
    };
    let got = s.ask(line.clone());
    let ok = match want {
        Some(w) => got == if w.is_empty() { "-".into() } else { w.iter().map(|b| format!("{b:02x}")).collect::<String>() },
        None => got.starts_with("err "),
    };
    if !ok {
        s.bad("map", format!("'{line}' of {n} bytes gives '{}'", got.chars().take(100).collect::<String>()));
    }
    OUT.count("windows", 1);
}

/// A worker thread ends while its endpoint is in use; the rest of the process and of the bus goes on.
fn stop_worker(s: &mut Sim) {
    let Some(e) = (0..s.ends.len()).find(|e| !s.ends[*e].via.is_empty()) else { return };
    if !s.ends[e].closed && s.r.pct(70) {
        s.flood(e, 100_000, 100);
        if s.r.pct(60) {
            s.recvs(e, 30, &[None, Some(40)]);
        }
        let t = s.r.below(60);
        s.poll(t);
    }
    s.events();
    s.ends[e].dead = true;
    let open = !s.ends[e].closed;
    s.ends[e].closed = true;
    s.want("wstop 1".into(), "ok");
    s.end_floods(Some(e));
    s.check(e, false);
    OUT.count("workers_ended", 1);
    if open {
        // Its endpoint has left: somebody of the same name gets everything
        let label = s.ends[e].label.clone();
        let mut o = ipmb::Options::new(s.ident.clone(), mk_label(&[label.clone()]), "größe");
        o.controller_affinity = true;
        let Ok((tx, mut rx)) = ipmb::join::<Any, BytesMessage>(o, Some(ms(30_000))) else { harness_error("join") };
        let end = now_ns() + 20_000_000_000;
        let mut row = 0;
        while row < 6 {
            let m = ipmb::Message::new(Selector::unicast(label.as_str()), Any::Bytes(BytesMessage { format: 1, data: vec![] }));
            let _ = tx.send(m);
            match rx.recv(Some(ms(500))) {
                Ok(_) => row += 1,
                Err(_) => row = 0,
            }
            s.poll(1);
            if now_ns() > end {
                s.bad("remains", "the endpoint of a worker that ended still takes messages".into());
                break;
            }
        }
    }
}
