//! A node is a process that takes part in a workload: this one, or a peer driven over its stdin.
//! It holds endpoints and whatever they received, and logs every event to a file that survives a
//! SIGKILL.
use crate::msg::*;
use crate::util::*;
use ipmb::{EndpointReceiver, EndpointSender, MemoryRegion, Message, MessageBox, Object, Options};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, BufReader, Read, Seek, SeekFrom, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;

// ---------------------------------------------------------------- events

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Ev {
    /// A message was sent. With e == 0 the send has only begun (written when asked for, so that a
    /// killed sender leaves a trace).
    S {
        sid: u32,
        seq: u32,
        b: u64,
        e: u64,
        err: Option<String>,
        ep: u32,
        uni: bool,
        op: Op,
        ttl: u64,
        len: u32,
        kind: u8,
    },
    /// A join returned.
    J {
        ep: u32,
        b: u64,
        e: u64,
        err: Option<String>,
        label: Vec<String>,
    },
    /// A message was received.
    R {
        ep: u32,
        t: u64,
        sid: u32,
        seq: u32,
        len: u32,
        kind: u8,
        ok: bool,
    },
    /// recv failed with something else than a timeout.
    E { ep: u32, t: u64, err: String },
    /// The receiver was dropped.
    C { ep: u32, b: u64, e: u64 },
    /// The whole endpoint was dropped or its process killed.
    K { ep: u32, t: u64 },
}

pub struct Log(Mutex<File>);

impl Log {
    fn open(path: &PathBuf) -> Log {
        Log(Mutex::new(
            File::options()
                .create(true)
                .append(true)
                .open(path)
                .unwrap_or_else(|e| harness_error(format!("log {path:?}: {e}"))),
        ))
    }
    pub fn put(&self, ev: &Ev) {
        let mut line = serde_json::to_vec(ev).unwrap();
        line.push(b'\n');
        let _ = self.0.lock().unwrap().write_all(&line);
    }
}

/// Reads the events that were added to a log since the last time.
pub struct Tail {
    path: PathBuf,
    file: Option<File>,
    rest: Vec<u8>,
}

impl Tail {
    pub fn new(path: PathBuf) -> Tail {
        Tail {
            path,
            file: None,
            rest: vec![],
        }
    }
    pub fn poll(&mut self, out: &mut Vec<Ev>) -> usize {
        if self.file.is_none() {
            match File::open(&self.path) {
                Ok(f) => self.file = Some(f),
                Err(_) => return 0,
            }
        }
        let f = self.file.as_mut().unwrap();
        let _ = f.seek(SeekFrom::Current(0));
        let _ = f.read_to_end(&mut self.rest);
        let mut n = 0;
        let mut start = 0;
        while let Some(i) = self.rest[start..].iter().position(|b| *b == b'\n') {
            match serde_json::from_slice::<Ev>(&self.rest[start..start + i]) {
                Ok(ev) => {
                    out.push(ev);
                    n += 1;
                }
                Err(e) => harness_error(format!(
                    "log line {:?}: {e}",
                    String::from_utf8_lossy(&self.rest[start..start + i])
                )),
            }
            start += i + 1;
        }
        self.rest.drain(..start);
        n
    }
}

// ---------------------------------------------------------------- commands

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct JoinSpec {
    pub ep: u32,
    pub ident: String,
    pub label: Vec<String>,
    pub token: String,
    pub aff: bool,
    pub timeout_ms: Option<u64>,
    /// "in" (V, W, Stop), "v", "stop", "bytes"
    pub rtype: String,
    /// Receive in a thread of its own
    pub auto: bool,
    /// recv timeout of that thread
    pub rx_timeout_ms: Option<u64>,
    pub rx_delay_us: u64,
    /// Not before this moment (to make joins collide)
    #[serde(default)]
    pub at: u64,
}

impl JoinSpec {
    pub fn new(ep: u32, ident: &str, label: &[&str]) -> JoinSpec {
        JoinSpec {
            ep,
            ident: ident.to_owned(),
            label: label.iter().map(|s| s.to_string()).collect(),
            token: "tok".to_owned(),
            aff: true,
            timeout_ms: Some(60_000),
            rtype: "in".to_owned(),
            auto: true,
            rx_timeout_ms: Some(100),
            rx_delay_us: 0,
            at: 0,
        }
    }
    pub fn manual(mut self) -> Self {
        self.auto = false;
        self
    }
    pub fn aff(mut self, a: bool) -> Self {
        self.aff = a;
        self
    }
    pub fn token(mut self, t: &str) -> Self {
        self.token = t.to_owned();
        self
    }
    pub fn rtype(mut self, t: &str) -> Self {
        self.rtype = t.to_owned();
        self
    }
    pub fn timeout(mut self, t: Option<u64>) -> Self {
        self.timeout_ms = t;
        self
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct SendSpec {
    pub ep: u32,
    pub sid: u32,
    pub seq: u32,
    pub kind: u8,
    pub uni: bool,
    pub op: Op,
    pub ttl_ns: u64,
    pub len: u32,
    /// Send the twin type W instead of V
    #[serde(default)]
    pub w: bool,
    /// Raw type and bytes instead of V
    #[serde(default)]
    pub raw: Option<([u8; 16], Vec<u8>)>,
    /// Held objects and regions to attach (moved)
    #[serde(default)]
    pub objects: Vec<u32>,
    #[serde(default)]
    pub regions: Vec<u32>,
}

impl SendSpec {
    pub fn new(ep: u32, sid: u32, seq: u32, op: Op) -> SendSpec {
        SendSpec {
            ep,
            sid,
            seq,
            kind: 0,
            uni: false,
            op,
            ttl_ns: 0,
            len: 16,
            w: false,
            raw: None,
            objects: vec![],
            regions: vec![],
        }
    }
    pub fn uni(mut self) -> Self {
        self.uni = true;
        self
    }
    pub fn len(mut self, n: u32) -> Self {
        self.len = n;
        self
    }
    pub fn ttl(mut self, d: Duration) -> Self {
        self.ttl_ns = d.as_nanos().min(u64::MAX as u128) as u64;
        self
    }
}

/// A run of generated messages sent by one thread.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Burst {
    pub ep: u32,
    pub sid: u32,
    pub seq0: u32,
    pub n: u32,
    pub seed: u64,
    pub ops: Vec<Op>,
    pub uni_pct: u64,
    pub lens: Vec<u32>,
    pub ttls_ms: Vec<u64>,
    pub gap_us: u64,
    pub barrier: bool,
    /// Clone the sender for this thread and drop it afterwards
    pub clone: bool,
    pub announce: bool,
    /// So many of 100 carry attachments,
    #[serde(default)]
    pub att_pct: u64,
    /// or are of an unusual length,
    #[serde(default)]
    pub odd_pct: u64,
    /// or wait for hours and years
    #[serde(default)]
    pub long_pct: u64,
}

/// Of a message that carries attachments. How many, and what is in them, follows from its number.
pub const ATT: u8 = 0x40;

fn extras(sid: u32, seq: u32) -> (u64, u64) {
    match Rng::of(&[sid as u64, seq as u64, 99]).below(6) {
        0 | 1 => (1, 0),
        2 | 3 => (0, 1),
        4 => (1, 1),
        _ => (3, 2),
    }
}

fn extra_bytes(sid: u32, seq: u32, region: bool, k: u64) -> Vec<u8> {
    let mut r = Rng::of(&[sid as u64, seq as u64, region as u64, k, 98]);
    let n = if region { r.range(1, 5000) } else { 16 };
    r.fill(n as usize)
}

fn attach(m: &mut Message<SBox>, sid: u32, seq: u32) {
    let (o, g) = extras(sid, seq);
    for k in 0..o {
        let d = extra_bytes(sid, seq, false, k);
        unsafe {
            let fd = libc::memfd_create(c"vhx".as_ptr(), libc::MFD_CLOEXEC);
            if fd < 0 || libc::pwrite(fd, d.as_ptr() as _, d.len(), 0) != d.len() as isize {
                harness_error(format!("an object: {}", std::io::Error::last_os_error()));
            }
            m.objects.push(Object::from_raw(fd));
        }
    }
    for k in 0..g {
        let d = extra_bytes(sid, seq, true, k);
        let mut x = MemoryRegion::new(d.len()).unwrap_or_else(|| harness_error("a region"));
        x.map(..d.len()).unwrap_or_else(|e| harness_error(e))[..d.len()].copy_from_slice(&d);
        m.memory_regions.push(x);
    }
}

fn attached(g: &mut Got, sid: u32, seq: u32) -> bool {
    let (o, n) = extras(sid, seq);
    if g.objects.len() as u64 != o || g.regions.len() as u64 != n {
        return false;
    }
    let objects = g.objects.iter().enumerate().all(|(k, f)| {
        let d = extra_bytes(sid, seq, false, k as u64);
        let mut b = vec![0u8; d.len() + 1];
        let n = unsafe { libc::pread(f.as_raw(), b.as_mut_ptr() as _, b.len(), 0) };
        n == d.len() as isize && b[..d.len()] == d[..]
    });
    objects
        && g.regions.iter_mut().enumerate().all(|(k, x)| {
            let d = extra_bytes(sid, seq, true, k as u64);
            x.map(..d.len()).map_or(false, |b| *b == d[..])
        })
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Cmd {
    Join(JoinSpec),
    Send(SendSpec),
    Burst(Burst),
    /// Receive one message on a manual endpoint; what is attached is held under the ids given
    Recv {
        ep: u32,
        timeout_ns: Option<u64>,
        hold: u32,
    },
    Pause(u32, bool),
    Slow(u32, u64),
    CloseRx(u32),
    DropTx(u32),
    Drop(u32),
    Census,
    Storm(Option<u64>),
    ClockAdd(u64),
    Ext(String, Value),
}

pub enum P {
    V(V),
    W(W),
    Stop(u32),
    Bytes(u16, Vec<u8>),
}

pub struct Got {
    pub p: P,
    pub objects: Vec<Object>,
    pub regions: Vec<MemoryRegion>,
}

pub trait AnyRx: Send {
    fn recv(&mut self, timeout: Option<Duration>) -> Result<Got, String>;
}

pub trait IntoP {
    fn p(self) -> P;
}
impl IntoP for In {
    fn p(self) -> P {
        match self {
            In::V(v) => P::V(v),
            In::W(w) => P::W(w),
            In::Stop(s) => P::Stop(s.ep),
        }
    }
}
impl IntoP for V {
    fn p(self) -> P {
        P::V(self)
    }
}
impl IntoP for Stop {
    fn p(self) -> P {
        P::Stop(self.ep)
    }
}
impl IntoP for ipmb::BytesMessage {
    fn p(self) -> P {
        P::Bytes(self.format, self.data)
    }
}

pub fn recv_err(e: &ipmb::RecvError) -> String {
    match e {
        ipmb::RecvError::Timeout => "timeout".into(),
        ipmb::RecvError::Decode(_) => "decode".into(),
        ipmb::RecvError::VersionMismatch(v) => format!("version {v}"),
        ipmb::RecvError::TokenMismatch => "token".into(),
        ipmb::RecvError::PermissionDenied => "permission".into(),
    }
}

pub fn join_err(e: &ipmb::JoinError) -> String {
    match e {
        ipmb::JoinError::Timeout => "timeout".into(),
        ipmb::JoinError::VersionMismatch(v) => format!("version {v}"),
        ipmb::JoinError::TokenMismatch => "token".into(),
        ipmb::JoinError::PermissionDenied => "permission".into(),
    }
}

impl<R: MessageBox + IntoP> AnyRx for EndpointReceiver<R> {
    fn recv(&mut self, timeout: Option<Duration>) -> Result<Got, String> {
        match EndpointReceiver::recv(self, timeout) {
            Ok(m) => Ok(Got {
                p: m.payload.p(),
                objects: m.objects,
                regions: m.memory_regions,
            }),
            Err(e) => Err(recv_err(&e)),
        }
    }
}

#[derive(Default)]
struct RxCtl {
    stop: AtomicBool,
    pause: AtomicBool,
    delay_us: AtomicU64,
}

pub struct Ep {
    pub label: Vec<String>,
    pub tx: Mutex<Option<EndpointSender<SBox>>>,
    pub rx: Mutex<Option<Box<dyn AnyRx>>>,
    ctl: Arc<RxCtl>,
    thread: Mutex<Option<std::thread::JoinHandle<()>>>,
    blocking: bool,
}

#[derive(Default)]
pub struct Held {
    pub objects: HashMap<u32, Object>,
    pub regions: HashMap<u32, MemoryRegion>,
}

pub struct Node {
    pub name: String,
    pub log: Log,
    pub eps: Mutex<HashMap<u32, Arc<Ep>>>,
    pub held: Mutex<Held>,
    pub ext: Mutex<HashMap<String, Box<dyn std::any::Any + Send>>>,
    storm: Mutex<Option<Arc<AtomicBool>>>,
}

pub fn options(j: &JoinSpec) -> Options {
    let mut o = Options::new(j.ident.clone(), mk_label(&j.label), j.token.clone());
    o.controller_affinity = j.aff;
    o
}

fn do_join<R: MessageBox + IntoP>(
    j: &JoinSpec,
) -> Result<(EndpointSender<SBox>, Box<dyn AnyRx>), String> {
    match ipmb::join::<SBox, R>(options(j), j.timeout_ms.map(ms)) {
        Ok((tx, rx)) => Ok((tx, Box::new(rx))),
        Err(e) => Err(join_err(&e)),
    }
}

impl Node {
    pub fn new(name: &str, dir: &PathBuf) -> Arc<Node> {
        Arc::new(Node {
            name: name.to_owned(),
            log: Log::open(&dir.join(format!("log.{name}"))),
            eps: Default::default(),
            held: Default::default(),
            ext: Default::default(),
            storm: Default::default(),
        })
    }

    pub fn ep(&self, ep: u32) -> Arc<Ep> {
        self.eps
            .lock()
            .unwrap()
            .get(&ep)
            .cloned()
            .unwrap_or_else(|| harness_error(format!("no endpoint {ep}")))
    }

    fn tx(&self, ep: u32) -> EndpointSender<SBox> {
        self.ep(ep)
            .tx
            .lock()
            .unwrap()
            .clone()
            .unwrap_or_else(|| harness_error(format!("no sender {ep}")))
    }

    fn join(self: &Arc<Self>, j: &JoinSpec) -> Value {
        if j.at > now_ns() + 3_000_000 {
            sleep_us((j.at - now_ns()) / 1000 - 1000);
        }
        while now_ns() < j.at {
            std::hint::spin_loop();
        }
        let b = now_ns();
        let r = match j.rtype.as_str() {
            "in" => do_join::<In>(j),
            "v" => do_join::<V>(j),
            "stop" => do_join::<Stop>(j),
            "bytes" => do_join::<ipmb::BytesMessage>(j),
            t => harness_error(format!("rtype {t}")),
        };
        let e = now_ns();
        let (tx, rx) = match r {
            Ok(r) => {
                self.log.put(&Ev::J {
                    ep: j.ep,
                    b,
                    e,
                    err: None,
                    label: j.label.clone(),
                });
                r
            }
            Err(err) => {
                self.log.put(&Ev::J {
                    ep: j.ep,
                    b,
                    e,
                    err: Some(err.clone()),
                    label: j.label.clone(),
                });
                return json!({"err": err, "b": b, "e": e});
            }
        };
        let ctl = Arc::new(RxCtl::default());
        ctl.delay_us.store(j.rx_delay_us, Ordering::SeqCst);
        let ep = Arc::new(Ep {
            label: j.label.clone(),
            tx: Mutex::new(Some(tx)),
            rx: Mutex::new(None),
            ctl: ctl.clone(),
            thread: Mutex::new(None),
            blocking: j.rx_timeout_ms.map_or(true, |t| t > 5000),
        });
        self.eps.lock().unwrap().insert(j.ep, ep.clone());
        if j.auto {
            let node = self.clone();
            let (id, timeout) = (j.ep, j.rx_timeout_ms.map(ms));
            let mut rx = rx;
            let h = std::thread::Builder::new()
                .name(format!("rx{id}"))
                .spawn(move || {
                    let mut rng = Rng::new(id as u64);
                    while !ctl.stop.load(Ordering::SeqCst) {
                        if ctl.pause.load(Ordering::SeqCst) {
                            sleep_ms(1);
                            continue;
                        }
                        let d = ctl.delay_us.load(Ordering::SeqCst);
                        if d > 0 {
                            sleep_us(rng.below(2 * d));
                        }
                        match rx.recv(timeout) {
                            Ok(mut g) => {
                                node.log_got(id, &mut g);
                            }
                            Err(e) if e == "timeout" => {
                                if timeout.is_none() {
                                    node.log.put(&Ev::E {
                                        ep: id,
                                        t: now_ns(),
                                        err: "timeout without a timeout".into(),
                                    });
                                }
                            }
                            Err(err) => {
                                node.log.put(&Ev::E {
                                    ep: id,
                                    t: now_ns(),
                                    err,
                                });
                                sleep_ms(1);
                            }
                        }
                    }
                    let b = now_ns();
                    must_return("drop of the receiver", 30, || drop(rx));
                    node.log.put(&Ev::C {
                        ep: id,
                        b,
                        e: now_ns(),
                    });
                })
                .unwrap();
            *ep.thread.lock().unwrap() = Some(h);
        } else {
            *ep.rx.lock().unwrap() = Some(rx);
        }
        json!({"b": b, "e": e})
    }

    pub fn log_got(&self, ep: u32, g: &mut Got) -> bool {
        let t = now_ns();
        let (sid, seq, kind, len, mut ok) = match &g.p {
            P::V(v) => (v.sid, v.seq, v.kind, v.body.len(), v.ok()),
            P::W(w) => (
                w.sid,
                w.seq,
                w.kind | 0x80,
                w.body.len(),
                w.body == body(w.sid, w.seq, w.body.len()),
            ),
            P::Stop(_) | P::Bytes(..) => return true,
        };
        if kind & ATT != 0 {
            ok &= attached(g, sid, seq);
        }
        self.log.put(&Ev::R {
            ep,
            t,
            sid,
            seq,
            len: len as u32,
            kind,
            ok,
        });
        ok
    }

    pub fn message(&self, s: &SendSpec) -> Message<SBox> {
        let payload = match &s.raw {
            Some((uuid, data)) => SBox {
                uuid: *uuid,
                data: data.clone(),
            },
            None if s.w => SBox::of(&In::W(W {
                sid: s.sid,
                seq: s.seq,
                kind: s.kind,
                body: body(s.sid, s.seq, s.len as usize),
            })),
            None => SBox::of(&In::V(V::new(s.sid, s.seq, s.kind, s.len as usize))),
        };
        let mut sel = if s.uni {
            ipmb::Selector::unicast(s.op.build())
        } else {
            ipmb::Selector::multicast(s.op.build())
        };
        sel.ttl = Duration::from_nanos(s.ttl_ns);
        match s.ttl_ns {
            u64::MAX => sel.ttl = Duration::MAX,
            x if x == u64::MAX - 1 => sel.ttl = Duration::from_secs(u64::MAX / 2),
            _ => {}
        }
        let mut m = Message::new(sel, payload);
        if s.kind & ATT != 0 {
            attach(&mut m, s.sid, s.seq);
        }
        let mut held = self.held.lock().unwrap();
        for o in &s.objects {
            m.objects.push(held.objects.remove(o).expect("held object"));
        }
        for r in &s.regions {
            m.memory_regions
                .push(held.regions.remove(r).expect("held region"));
        }
        m
    }

    pub fn send_with(&self, tx: &EndpointSender<SBox>, s: &SendSpec) -> Option<String> {
        let m = self.message(s);
        let b = now_ns();
        let r = tx.send(m);
        let e = now_ns();
        let err = r.err().map(|e| format!("{e}"));
        self.log.put(&Ev::S {
            sid: s.sid,
            seq: s.seq,
            b,
            e,
            err: err.clone(),
            ep: s.ep,
            uni: s.uni,
            op: s.op.clone(),
            ttl: s.ttl_ns,
            len: s.len,
            kind: s.kind | if s.w { 0x80 } else { 0 },
        });
        err
    }

    fn burst(&self, b: &Burst) -> Value {
        // The endpoint may have been dropped before its burst begins
        let own = match self.eps.lock().unwrap().get(&b.ep).cloned() {
            Some(e) => e,
            None => return json!({"seq": b.seq0, "errs": 0}),
        };
        let tx = if b.clone {
            match own.tx.lock().unwrap().clone() {
                Some(tx) => Some(tx),
                None => return json!({"seq": b.seq0, "errs": 0}),
            }
        } else {
            None
        };
        let mut rng = Rng::new(b.seed);
        let mut seq = b.seq0;
        let total = b.n + b.barrier as u32;
        let mut errs = 0;
        let mut carried = 0;
        for i in 0..total {
            let barrier = b.barrier && i == b.n;
            let s = if barrier {
                SendSpec {
                    kind: 1,
                    len: 0,
                    ..SendSpec::new(b.ep, b.sid, seq, Op::T)
                }
            } else {
                let mut s = SendSpec {
                    uni: rng.pct(b.uni_pct),
                    ttl_ns: *rng.pick(&b.ttls_ms) * 1_000_000,
                    len: *rng.pick(&b.lens),
                    ..SendSpec::new(b.ep, b.sid, seq, rng.pick(&b.ops).clone())
                };
                if rng.pct(b.att_pct) && carried < 60 {
                    carried += 1;
                    s.kind |= ATT;
                }
                if rng.pct(b.odd_pct) {
                    s.len = *rng.pick(&[1000, 4090, 20_001, 40_000, 65_000, 65_536, 70_000]);
                }
                if rng.pct(b.long_pct) {
                    s.ttl_ns = *rng.pick(&[7200, 90_000, 40_000_000]) * 1_000_000_000;
                }
                s
            };
            seq += 1;
            if b.announce {
                self.log.put(&Ev::S {
                    sid: s.sid,
                    seq: s.seq,
                    b: now_ns(),
                    e: 0,
                    err: None,
                    ep: s.ep,
                    uni: s.uni,
                    op: s.op.clone(),
                    ttl: s.ttl_ns,
                    len: s.len,
                    kind: s.kind,
                });
            }
            let r = match &tx {
                Some(tx) => self.send_with(tx, &s),
                None => {
                    // Through the one handle all the threads share
                    let tx = own.tx.lock().unwrap().clone();
                    match tx {
                        Some(tx) => self.send_with(&tx, &s),
                        None => break,
                    }
                }
            };
            errs += r.is_some() as u64;
            if b.gap_us > 0 {
                sleep_us(rng.below(2 * b.gap_us));
            }
        }
        json!({"seq": seq, "errs": errs})
    }

    fn recv(&self, ep: u32, timeout_ns: Option<u64>, hold: u32) -> Value {
        let e = self.ep(ep);
        let mut g = e.rx.lock().unwrap();
        let rx = g
            .as_mut()
            .unwrap_or_else(|| harness_error(format!("no manual receiver {ep}")));
        let timeout = timeout_ns.map(|t| {
            if t == u64::MAX {
                Duration::MAX
            } else {
                Duration::from_nanos(t)
            }
        });
        let b = now_ns();
        let r = rx.recv(timeout);
        let t = now_ns();
        match r {
            Err(err) => json!({"err": err, "b": b, "e": t}),
            Ok(mut got) => {
                let ok = self.log_got(ep, &mut got);
                let mut held = self.held.lock().unwrap();
                let (no, nr) = (got.objects.len(), got.regions.len());
                for (i, o) in got.objects.into_iter().enumerate() {
                    held.objects.insert(hold + i as u32, o);
                }
                for (i, r) in got.regions.into_iter().enumerate() {
                    held.regions.insert(hold + i as u32, r);
                }
                let mut v = match got.p {
                    P::V(v) => {
                        json!({"k":"V","sid":v.sid,"seq":v.seq,"kind":v.kind,"len":v.body.len(),"ok":ok})
                    }
                    P::W(v) => {
                        json!({"k":"W","sid":v.sid,"seq":v.seq,"kind":v.kind,"len":v.body.len(),"ok":ok})
                    }
                    P::Stop(e) => json!({"k":"Stop","ep":e}),
                    P::Bytes(f, d) => json!({"k":"Bytes","format":f,"data":d}),
                };
                v["objects"] = no.into();
                v["regions"] = nr.into();
                v["b"] = b.into();
                v["e"] = t.into();
                v
            }
        }
    }

    fn close_rx(&self, ep: u32) {
        let e = self.ep(ep);
        e.ctl.stop.store(true, Ordering::SeqCst);
        let h = e.thread.lock().unwrap().take();
        if let Some(h) = h {
            if e.blocking {
                // Wake it up
                if let Some(tx) = &*e.tx.lock().unwrap() {
                    let tag = e.label.iter().find(|l| l.starts_with('@')).cloned();
                    let op = tag.map(Op::L).unwrap_or(Op::T);
                    let _ = tx.send(Message::new(
                        ipmb::Selector::multicast(op.build()),
                        SBox::of(&In::Stop(Stop { ep })),
                    ));
                }
            }
            let _ = h.join();
        } else if let Some(rx) = e.rx.lock().unwrap().take() {
            let b = now_ns();
            must_return("drop of the receiver", 30, || drop(rx));
            self.log.put(&Ev::C {
                ep,
                b,
                e: now_ns(),
            });
        }
    }

    pub fn exec(self: &Arc<Self>, c: Cmd) -> Value {
        match c {
            Cmd::Join(j) => self.join(&j),
            Cmd::Send(s) => {
                let tx = self.tx(s.ep);
                match self.send_with(&tx, &s) {
                    None => json!({}),
                    Some(e) => json!({ "err": e }),
                }
            }
            Cmd::Burst(b) => self.burst(&b),
            Cmd::Recv {
                ep,
                timeout_ns,
                hold,
            } => self.recv(ep, timeout_ns, hold),
            Cmd::Pause(ep, p) => {
                self.ep(ep).ctl.pause.store(p, Ordering::SeqCst);
                json!({})
            }
            Cmd::Slow(ep, us) => {
                self.ep(ep).ctl.delay_us.store(us, Ordering::SeqCst);
                json!({})
            }
            Cmd::CloseRx(ep) => {
                self.close_rx(ep);
                json!({})
            }
            Cmd::DropTx(ep) => {
                let e = self.ep(ep);
                let tx = e.tx.lock().unwrap().take();
                drop(tx);
                json!({})
            }
            Cmd::Drop(ep) => {
                if !self.eps.lock().unwrap().contains_key(&ep) {
                    return json!({});
                }
                self.close_rx(ep);
                let e = self.eps.lock().unwrap().remove(&ep);
                if let Some(e) = e {
                    let tx = e.tx.lock().unwrap().take();
                    drop(tx);
                }
                self.log.put(&Ev::K { ep, t: now_ns() });
                json!({})
            }
            Cmd::Census => census(),
            Cmd::Storm(Some(gap_us)) => {
                let flag = Arc::new(AtomicBool::new(true));
                *self.storm.lock().unwrap() = Some(flag.clone());
                crate::sig::storm(gap_us, flag);
                json!({})
            }
            Cmd::Storm(None) => {
                if let Some(f) = self.storm.lock().unwrap().take() {
                    f.store(false, Ordering::SeqCst);
                }
                json!({"signals": crate::sig::handled()})
            }
            Cmd::ClockAdd(ns) => json!({"ok": crate::shim::clock_add(ns)}),
            Cmd::Ext(name, v) => crate::ext::run(self, &name, v),
        }
    }
}

/// Descriptors, mappings and threads of this process.
pub fn census() -> Value {
    let mut fds = vec![];
    if let Ok(d) = std::fs::read_dir("/proc/self/fd") {
        let mut names: Vec<_> = d
            .flatten()
            .filter_map(|e| e.file_name().into_string().ok()?.parse::<i32>().ok())
            .collect();
        names.sort();
        for n in names {
            if let Ok(t) = std::fs::read_link(format!("/proc/self/fd/{n}")) {
                let t = t.to_string_lossy().into_owned();
                if !t.starts_with("/proc/") {
                    fds.push(format!("{n}:{t}"));
                }
            }
        }
    }
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
    let memfd = maps.lines().filter(|l| l.contains("memfd:")).count();
    let threads = std::fs::read_dir("/proc/self/task")
        .map(|d| d.count())
        .unwrap_or(0);
    let controllers = std::fs::read_dir("/proc/self/task")
        .map(|d| {
            d.flatten()
                .filter(|e| {
                    std::fs::read_to_string(e.path().join("comm"))
                        .map_or(false, |c| c.starts_with("ipmb"))
                })
                .count()
        })
        .unwrap_or(0);
    json!({"fds": fds, "memfd_maps": memfd, "threads": threads, "controllers": controllers})
}

// ---------------------------------------------------------------- peers

pub struct Peer {
    pub name: String,
    pub pid: i32,
    child: Mutex<Child>,
    stdin: Mutex<Option<ChildStdin>>,
    waiting: Arc<Mutex<HashMap<u64, mpsc::Sender<Value>>>>,
    next: AtomicU64,
    dead: Arc<AtomicBool>,
    expected: AtomicBool,
    stderr: PathBuf,
    reported: AtomicBool,
}

#[derive(Debug)]
pub struct Gone;

impl Peer {
    pub fn spawn(name: &str, exe: &str, dir: &PathBuf, env: &[(String, String)]) -> Arc<Peer> {
        let stderr = dir.join(format!("err.{name}"));
        let mut cmd = Command::new(exe);
        cmd.arg("peer")
            .arg(name)
            .arg(dir)
            .envs(env.iter().cloned())
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(File::create(&stderr).unwrap());
        let mut child = cmd
            .spawn()
            .unwrap_or_else(|e| harness_error(format!("spawn {exe}: {e}")));
        let pid = child.id() as i32;
        let stdin = child.stdin.take();
        let stdout = child.stdout.take().unwrap();
        let waiting: Arc<Mutex<HashMap<u64, mpsc::Sender<Value>>>> = Default::default();
        let dead = Arc::new(AtomicBool::new(false));
        let (w, d) = (waiting.clone(), dead.clone());
        std::thread::spawn(move || {
            for line in BufReader::new(stdout).lines() {
                let line = match line {
                    Ok(l) => l,
                    Err(_) => break,
                };
                if let Some(r) = line.strip_prefix("RESULT ") {
                    // The peer gave a verdict of its own
                    if let Ok(v) = serde_json::from_str::<Value>(r) {
                        for x in v["violations"].as_array().into_iter().flatten() {
                            OUT.violation(
                                x[0].as_str().unwrap_or("?"),
                                format!("(in a peer) {}", x[1].as_str().unwrap_or("?")),
                            );
                        }
                        for x in v["inconclusive"].as_array().into_iter().flatten() {
                            OUT.inconclusive(x.as_str().unwrap_or("?"));
                        }
                    }
                    OUT.finish();
                }
                if let Ok(v) = serde_json::from_str::<Value>(&line) {
                    if let Some(tx) = w.lock().unwrap().remove(&v["id"].as_u64().unwrap_or(0)) {
                        let _ = tx.send(v["r"].clone());
                    }
                }
            }
            d.store(true, Ordering::SeqCst);
            w.lock().unwrap().clear();
        });
        Arc::new(Peer {
            name: name.to_owned(),
            pid,
            child: Mutex::new(child),
            stdin: Mutex::new(stdin),
            waiting,
            next: AtomicU64::new(1),
            dead,
            expected: AtomicBool::new(false),
            stderr,
            reported: AtomicBool::new(false),
        })
    }

    pub fn start(&self, c: &Cmd) -> Result<mpsc::Receiver<Value>, Gone> {
        let id = self.next.fetch_add(1, Ordering::SeqCst);
        let (tx, rx) = mpsc::channel();
        self.waiting.lock().unwrap().insert(id, tx);
        let line = format!("{}\n", json!({"id": id, "c": c}));
        if let Some(w) = &mut *self.stdin.lock().unwrap() {
            if w.write_all(line.as_bytes()).is_ok() && !self.dead.load(Ordering::SeqCst) {
                return Ok(rx);
            }
        }
        self.unexpected();
        Err(Gone)
    }

    pub fn call(&self, c: &Cmd) -> Result<Value, Gone> {
        let rx = self.start(c)?;
        match rx.recv() {
            Ok(v) => Ok(v),
            Err(_) => {
                self.unexpected();
                Err(Gone)
            }
        }
    }

    /// A participant that was not killed on purpose has died: the library brought it down.
    fn unexpected(&self) {
        if self.expected.load(Ordering::SeqCst) || self.reported.swap(true, Ordering::SeqCst) {
            return;
        }
        let status = self.child.lock().unwrap().wait();
        let err = std::fs::read_to_string(&self.stderr).unwrap_or_default();
        let tail: String = err.chars().rev().take(1500).collect::<String>();
        let tail: String = tail.chars().rev().collect();
        let status = status.map(|s| s.to_string()).unwrap_or_default();
        if tail.contains("HARNESS") || (tail.contains("panicked at src/") && !tail.contains("/repo/"))
        {
            harness_error(format!("peer {}: {status}: {tail}", self.name));
        }
        OUT.violation("crash", format!("peer {} died: {status}: {tail}", self.name));
        OUT.finish();
    }

    pub fn kill(&self) -> u64 {
        self.expected.store(true, Ordering::SeqCst);
        unsafe { libc::kill(self.pid, libc::SIGKILL) };
        let _ = self.child.lock().unwrap().wait();
        now_ns()
    }

    /// Let it end by itself (closing stdin), dropping nothing.
    pub fn expect_death(&self) {
        self.expected.store(true, Ordering::SeqCst);
    }

    pub fn wait(&self) -> Option<std::process::ExitStatus> {
        self.child.lock().unwrap().wait().ok()
    }

    pub fn alive(&self) -> bool {
        matches!(self.child.lock().unwrap().try_wait(), Ok(None))
    }

    pub fn stop_cont(&self, stop: bool) {
        unsafe { libc::kill(self.pid, if stop { libc::SIGSTOP } else { libc::SIGCONT }) };
        // The signal is sent, but not every thread has stopped yet
        while stop {
            let all = std::fs::read_dir(format!("/proc/{}/task", self.pid)).map_or(true, |d| {
                d.flatten().all(|t| {
                    std::fs::read_to_string(t.path().join("stat"))
                        .map_or(true, |s| s.rsplit(')').next().unwrap_or("").trim_start().starts_with(['T', 't', 'Z']))
                })
            });
            if all {
                break;
            }
            sleep_us(200);
        }
    }
}

impl Drop for Peer {
    fn drop(&mut self) {
        self.expected.store(true, Ordering::SeqCst);
        unsafe { libc::kill(self.pid, libc::SIGKILL) };
        let _ = self.child.lock().unwrap().wait();
    }
}

/// Where an endpoint lives.
#[derive(Clone)]
pub enum Host {
    Here(Arc<Node>),
    Peer(Arc<Peer>),
}

impl Host {
    pub fn call(&self, c: Cmd) -> Result<Value, Gone> {
        match self {
            Host::Here(n) => Ok(n.exec(c)),
            Host::Peer(p) => p.call(&c),
        }
    }
    /// The answer, in the case that the host has no reason to die.
    pub fn get(&self, c: Cmd) -> Value {
        match self.call(c) {
            Ok(v) => v,
            Err(_) => {
                // unexpected() has ended the scenario unless the death was wanted
                harness_error("call to a host that was killed")
            }
        }
    }
    pub fn join(&self, j: JoinSpec) -> Value {
        self.get(Cmd::Join(j))
    }
    pub fn must_join(&self, j: JoinSpec) {
        let what = format!("{} {:?}", j.ep, j.label);
        let v = self.get(Cmd::Join(j));
        if let Some(e) = v["err"].as_str() {
            OUT.violation(
                format!("join:{}", e.split(' ').next().unwrap_or("")),
                format!("join of endpoint {what} failed: {e}"),
            );
            OUT.finish();
        }
    }
    pub fn send(&self, s: SendSpec) -> Option<String> {
        self.get(Cmd::Send(s))["err"].as_str().map(|s| s.to_owned())
    }
    /// With a timeout of seconds a message is due. Then it is also waited for without a timeout.
    pub fn recv(&self, ep: u32, timeout_ms: u64, hold: u32) -> Value {
        static N: AtomicU64 = AtomicU64::new(0);
        if timeout_ms >= 8000 && N.fetch_add(1, Ordering::SeqCst) % 3 == 1 {
            OUT.count("recvs_without_timeout", 1);
            return must_return("recv of a message that is due", 40, || {
                self.get(Cmd::Recv {
                    ep,
                    timeout_ns: None,
                    hold,
                })
            });
        }
        self.get(Cmd::Recv {
            ep,
            timeout_ns: Some(timeout_ms * 1_000_000),
            hold,
        })
    }
    pub fn name(&self) -> String {
        match self {
            Host::Here(n) => n.name.clone(),
            Host::Peer(p) => p.name.clone(),
        }
    }
    pub fn pid(&self) -> i32 {
        match self {
            Host::Here(_) => std::process::id() as i32,
            Host::Peer(p) => p.pid,
        }
    }
    pub fn peer(&self) -> &Arc<Peer> {
        match self {
            Host::Peer(p) => p,
            Host::Here(_) => harness_error("not a peer"),
        }
    }
}

/// The main function of a peer.
pub fn peer_main(name: &str, dir: &str) -> ! {
    unsafe {
        // Orphans end by the end of their stdin
        libc::signal(libc::SIGPIPE, libc::SIG_DFL);
        if let Some(n) = std::env::var("VH_AS").ok().and_then(|s| s.parse().ok()) {
            let l = libc::rlimit {
                rlim_cur: n,
                rlim_max: n,
            };
            libc::setrlimit(libc::RLIMIT_AS, &l);
        }
    }
    let node = Node::new(name, &PathBuf::from(dir));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        let v: Value = serde_json::from_str(&line).unwrap_or_else(|e| harness_error(e));
        let id = v["id"].as_u64().unwrap();
        let c: Cmd = serde_json::from_value(v["c"].clone()).unwrap_or_else(|e| harness_error(e));
        let node = node.clone();
        std::thread::Builder::new()
            .name(format!("cmd{id}"))
            .spawn(move || {
                let r = node.exec(c);
                let line = format!("{}\n", json!({"id": id, "r": r}));
                let out = std::io::stdout();
                let mut out = out.lock();
                let _ = out.write_all(line.as_bytes());
                let _ = out.flush();
            })
            .unwrap();
    }
    unsafe { libc::_exit(0) }
}
