//! C01, C05, C06: what is in a message and who gets to see it.
use crate::msg::*;
use crate::node::*;
use crate::traffic::*;
use crate::util::*;
use crate::world::*;
use ipmb::{BytesMessage, EndpointReceiver, EndpointSender, Message, MessageBox, Selector};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use type_uuid::TypeUuid;

// ---------------------------------------------------------------- C01

/// Formulas and labels inside the process.
pub fn labels_local(seed: u64) {
    let mut r = Rng::of(&[seed, 1]);
    let mut pool = pool(&mut r);
    for i in 0..r.range(0, 12) {
        pool.push(format!("e{i}"));
    }
    let mut cases = 0;
    for _ in 0..60 {
        // A program of inserts and removes against a set
        let mut set = BTreeSet::new();
        let mut label = match r.below(3) {
            0 => ipmb::Label::default(),
            1 => {
                let init: Vec<String> = (0..r.below(5)).map(|_| r.pick(&pool).clone()).collect();
                set.extend(init.iter().cloned());
                ipmb::Label::from(init.iter().map(|s| s.as_str()))
            }
            _ => {
                let (a, b) = (r.pick(&pool).clone(), r.pick(&pool).clone());
                set.insert(a.clone());
                set.insert(b.clone());
                set.insert(a.clone());
                ipmb::label!(a, b, a)
            }
        };
        for _ in 0..r.below(25) {
            let e = r.pick(&pool).clone();
            if r.pct(65) {
                label.insert(&e);
                set.insert(e);
            } else {
                label.remove(&e);
                set.remove(&e);
            }
        }
        if r.pct(50) {
            let bytes = ipmb::encode(&label).expect("encode");
            label = match ipmb::decode(&bytes) {
                Ok(l) => l,
                Err(e) => {
                    OUT.violation("label:roundtrip", format!("{set:?}: {e}"));
                    continue;
                }
            };
        }
        let mut got: Vec<String> = label.iter().map(|s| s.to_owned()).collect();
        got.sort();
        if got != set.iter().cloned().collect::<Vec<_>>() {
            OUT.violation("label:content", format!("{got:?} instead of {set:?}"));
        }
        let sub: Vec<&str> = (0..r.below(4)).map(|_| r.pick(&pool).as_str()).collect();
        if label.all(sub.iter().copied()) != sub.iter().all(|s| set.contains(*s)) {
            OUT.violation("label:all", format!("{sub:?} of {set:?}"));
        }
        for _ in 0..40 {
            let d = r.range(0, 7) as u32;
            let op = Op::random(&mut r, &pool, d);
            let mut lop = op.build();
            if r.pct(40) {
                let bytes = ipmb::encode(&lop).expect("encode");
                lop = match ipmb::decode(&bytes) {
                    Ok(l) => l,
                    Err(e) => {
                        OUT.violation("labelop:roundtrip", format!("{op:?}: {e}"));
                        continue;
                    }
                };
            }
            let want = op.eval(&set);
            let have = lop.validate(&label);
            if want != have {
                OUT.violation(
                    "labelop:value",
                    format!("{op:?} over {set:?} is {have}, should be {want}"),
                );
            }
            cases += 1;
            OUT.distinct(format!(
                "{:x}",
                hash(format!("{op:?}{set:?}").as_bytes())
            ));
        }
        OUT.sample(json!({"label": set, "pool": pool}));
    }
    OUT.count("formulas", cases);
}

/// The same over buses.
pub fn labels_bus(seed: u64) {
    let mut r = Rng::of(&[seed, 1, 1]);
    let plan = Plan {
        peers: r.range(0, 2),
        eps: r.range(2, 8),
        threads: r.range(1, 3),
        n: r.range(10, 40) as u32,
        uni_pct: *r.pick(&[0, 30]),
        depth: r.range(1, 8) as u32,
        ttls_ms: vec![0],
        delays: false,
        ..Plan::default()
    };
    run(seed, &plan);
}

/// Long chains and deep nests, in range of what the bus supports.
pub fn labels_deep(seed: u64) {
    let mut r = Rng::of(&[seed, 1, 2]);
    let mut w = World::new(seed);
    let host = w.here();
    let p = w.peer();
    let label = strs(&["a", "b"]);
    let e0 = w.join(&host, &label, |_| {});
    let e1 = w.join(&p, &strs(&["b"]), |_| {});
    let e2 = w.join(&p, &strs(&[]), |_| {});
    let mut ops = vec![];
    for _ in 0..12 {
        let depth = *r.pick(&[1u64, 50, 150, 300, 500]);
        let depth = r.range(1, depth);
        let mut op = Op::leaf(*r.pick(&["a", "b", "zz"]));
        for _ in 0..depth {
            let leaf = Op::leaf(*r.pick(&["a", "b", "zz"]));
            op = match r.below(5) {
                0 => Op::A(Box::new(op), Box::new(leaf)),
                1 => Op::O(Box::new(op), Box::new(leaf)),
                2 => Op::O(Box::new(leaf), Box::new(op)),
                _ => Op::N(Box::new(op)),
            };
        }
        ops.push(op);
    }
    let mut bs = vec![];
    for (h, e) in [(host, e0), (p.clone(), e1)] {
        let mut b = w.burst(e, 30, ops.clone());
        b.lens = vec![8];
        bs.push((h, b));
    }
    let barriers = w.bursts(bs);
    w.settle(&barriers, &[e0, e1, e2].into_iter().collect());
    w.check(&Default::default());
    OUT.count("formulas", ops.len() as u64);
    OUT.sample(json!({"sizes": ops.iter().map(|o| o.size()).collect::<Vec<_>>()}));
}

// ---------------------------------------------------------------- C05

#[derive(Debug, Serialize, Deserialize, TypeUuid, PartialEq, Clone)]
#[uuid = "2b1b0a54-07a2-4a51-9e0f-2f0c7cc9e001"]
pub struct Rich {
    id: (u32, u64),
    a: i8,
    b: Option<Option<i64>>,
    c: Vec<Kind>,
    d: BTreeMap<String, Vec<u16>>,
    e: (bool, char, u128, i128),
    f: f32,
    g: f64,
    h: [u8; 5],
    i: Option<Box<Rich>>,
    j: String,
}

#[derive(Debug, Serialize, Deserialize, PartialEq, Clone)]
pub enum Kind {
    Unit,
    New(String),
    Tup(u8, i32),
    Rec { x: Option<u64>, y: Vec<()> },
}

#[derive(Debug, Serialize, Deserialize, TypeUuid, PartialEq, Clone)]
#[uuid = "2b1b0a54-07a2-4a51-9e0f-2f0c7cc9e002"]
pub struct Unit;

#[derive(Debug, Serialize, Deserialize, TypeUuid, PartialEq, Clone)]
#[uuid = "2b1b0a54-07a2-4a51-9e0f-2f0c7cc9e003"]
pub struct Text(String);

#[derive(Debug, Serialize, Deserialize, TypeUuid, PartialEq, Clone)]
#[uuid = "2b1b0a54-07a2-4a51-9e0f-2f0c7cc9e004"]
pub struct One(u8);

#[derive(ipmb::MessageBox, Debug)]
pub enum Pay {
    Bytes(BytesMessage),
    Rich(Rich),
    Unit(Unit),
    Text(Text),
    One(One),
}

fn text(r: &mut Rng, max: u64) -> String {
    (0..r.below(max + 1))
        .map(|_| match r.below(6) {
            0 => '\0',
            1 => 'é',
            2 => '中',
            3 => '🦀',
            _ => (b'a' + r.below(26) as u8) as char,
        })
        .collect()
}

fn rich(r: &mut Rng, depth: u32) -> Rich {
    let edge = |r: &mut Rng| -> u64 {
        let x = r.u64();
        *r.pick(&[0, 1, 250, 251, 252, 65535, 65536, u32::MAX as u64, 1 << 32, u64::MAX, x])
    };
    Rich {
        id: (edge(r) as u32, edge(r)),
        a: edge(r) as i8,
        b: match r.below(3) {
            0 => None,
            1 => Some(None),
            _ => Some(Some(edge(r) as i64)),
        },
        c: (0..r.below(6))
            .map(|_| match r.below(4) {
                0 => Kind::Unit,
                1 => Kind::New(text(r, 40)),
                2 => Kind::Tup(edge(r) as u8, edge(r) as i32),
                _ => Kind::Rec {
                    x: if r.pct(50) { Some(edge(r)) } else { None },
                    y: vec![(); r.below(4) as usize],
                },
            })
            .collect(),
        d: (0..r.below(4))
            .map(|_| {
                (
                    text(r, 12),
                    (0..r.below(400)).map(|_| edge(r) as u16).collect(),
                )
            })
            .collect(),
        e: (
            r.pct(50),
            *r.pick(&['\0', 'x', '\u{7ff}', '\u{ffff}', '\u{10ffff}']),
            (edge(r) as u128) << 64 | edge(r) as u128,
            -((edge(r) >> 1) as i128) << 32,
        ),
        f: *r.pick(&[0.0, -0.0, 1.5, f32::MIN_POSITIVE, f32::INFINITY]),
        g: *r.pick(&[0.0, -0.0, 1.5e300, f64::EPSILON, f64::NEG_INFINITY]),
        h: [edge(r) as u8; 5],
        i: if depth > 0 && r.pct(50) {
            Some(Box::new(rich(r, depth - 1)))
        } else {
            None
        },
        j: text(r, 200),
    }
}

/// The k-th value of this seed, with its encoded size at most 64 KiB.
pub fn value(seed: u64, k: u64) -> Pay {
    let mut r = Rng::of(&[seed, k, 5]);
    match r.below(10) {
        0 => Pay::Unit(Unit),
        1 => Pay::One(One(r.u64() as u8)),
        2 => Pay::Text(Text(text(&mut r, 300))),
        3 | 4 => Pay::Rich(rich(&mut r, 3)),
        _ => {
            let n = match r.below(6) {
                0 => r.below(40),
                1 => r.below(300),
                2 => r.range(4090, 4110),
                3 => r.pick(&[250u64, 251, 252, 32768, 65000, 65520, 65528]) + r.below(3),
                4 => 65530 - r.below(12),
                _ => r.below(65530),
            };
            // format and length prefix take up to 3 bytes each
            Pay::Bytes(BytesMessage {
                format: *r.pick(&[0, 250, 251, 65535]),
                data: r.fill(n.min(65530) as usize),
            })
        }
    }
}

fn same(a: &Pay, b: &Pay) -> bool {
    match (a, b) {
        (Pay::Bytes(a), Pay::Bytes(b)) => a.format == b.format && a.data == b.data,
        (Pay::Rich(a), Pay::Rich(b)) => {
            a == b && a.f.to_bits() == b.f.to_bits() && a.g.to_bits() == b.g.to_bits()
        }
        (Pay::Unit(_), Pay::Unit(_)) => true,
        (Pay::Text(a), Pay::Text(b)) => a == b,
        (Pay::One(a), Pay::One(b)) => a == b,
        _ => false,
    }
}

fn brief(p: &Pay) -> String {
    let s = format!("{p:?}");
    s.chars().take(120).collect()
}

type PayEp = (EndpointSender<Pay>, EndpointReceiver<Pay>);

pub fn pay_ext(node: &Arc<Node>, name: &str, v: Value) -> Value {
    let ep = v["ep"].as_u64().unwrap_or(0);
    let key = format!("pay{ep}");
    match name {
        "pay.join" => {
            let label: Vec<String> = serde_json::from_value(v["label"].clone()).unwrap();
            let o = ipmb::Options::new(v["ident"].as_str().unwrap(), mk_label(&label), "t");
            match ipmb::join::<Pay, Pay>(o, Some(ms(60_000))) {
                Ok(p) => {
                    let p: PayEp = p;
                    node.ext
                        .lock()
                        .unwrap()
                        .insert(key, Box::new(std::sync::Mutex::new(p)));
                    json!({})
                }
                Err(e) => json!({"err": join_err(&e)}),
            }
        }
        "pay.send" | "pay.recv" => {
            let b = node.ext.lock().unwrap().remove(&key).unwrap();
            let seed = v["seed"].as_u64().unwrap();
            let (k0, n) = (v["k"].as_u64().unwrap(), v["n"].as_u64().unwrap());
            let p = b.downcast::<std::sync::Mutex<PayEp>>().unwrap();
            let mut bad = vec![];
            {
                let mut g = p.lock().unwrap();
                let mut r = Rng::of(&[seed, k0, 9]);
                for k in k0..k0 + n {
                    if name == "pay.send" {
                        let op: Op = serde_json::from_value(v["op"].clone()).unwrap();
                        let mut op = op;
                        // A random tautology makes the selector any size
                        if r.pct(50) {
                            let junk = Op::random(&mut r, &strs(&["q", "rr", "sss"]), 4);
                            op = Op::A(
                                Box::new(op),
                                Box::new(Op::O(
                                    Box::new(junk.clone()),
                                    Box::new(Op::N(Box::new(junk))),
                                )),
                            );
                        }
                        let mut sel = if r.pct(50) {
                            Selector::unicast(op.build())
                        } else {
                            Selector::multicast(op.build())
                        };
                        sel.ttl = std::time::Duration::from_nanos(if r.pct(50) {
                            r.below(1 << 40)
                        } else {
                            0
                        });
                        let mut m = Message::new(sel, value(seed, k));
                        for _ in 0..r.below(3) * r.below(2) {
                            let mut mr = ipmb::MemoryRegion::new(r.range(1, 9000) as usize).unwrap();
                            let l = mr.buffer_size() as usize;
                            mr.map(..).unwrap().copy_from_slice(&Rng::new(k).fill(l));
                            m.memory_regions.push(mr);
                        }
                        for _ in 0..r.below(3) * r.below(2) {
                            let f = std::fs::File::open("/dev/null").unwrap();
                            use std::os::fd::IntoRawFd;
                            m.objects
                                .push(unsafe { ipmb::Object::from_raw(f.into_raw_fd()) });
                        }
                        if let Err(e) = g.0.send(m) {
                            bad.push(json!([k, format!("send: {e}")]));
                        }
                    } else {
                        let got = match k % 3 {
                            0 => must_return("recv of a message that is due", 40, || g.1.recv(None)),
                            _ => g.1.recv(Some(ms(20_000))),
                        };
                        match got {
                            Ok(m) => {
                                let want = value(seed, k);
                                if !same(&m.payload, &want) {
                                    bad.push(json!([
                                        k,
                                        format!("got {} instead of {}", brief(&m.payload), brief(&want))
                                    ]));
                                }
                                for mut mr in m.memory_regions {
                                    let l = mr.buffer_size() as usize;
                                    if mr.map(..).map_or(true, |b| b != &Rng::new(k).fill(l)[..]) {
                                        bad.push(json!([k, "a region of it differs"]));
                                    }
                                }
                            }
                            Err(e) => {
                                bad.push(json!([k, format!("recv: {}, {}", recv_err(&e), brief(&value(seed, k)))]));
                                break;
                            }
                        }
                    }
                }
            }
            node.ext.lock().unwrap().insert(key, p);
            json!({ "bad": bad })
        }
        _ => harness_error(name),
    }
}

pub fn payload(seed: u64) {
    let mut w = World::new(seed);
    let mut r = w.rng.fork();
    let hosts: Vec<Host> = (0..r.range(1, 3))
        .map(|i| {
            if i == 0 && r.pct(50) {
                w.here()
            } else {
                w.peer()
            }
        })
        .collect();
    let n_ep = r.range(2, 4);
    let mut eps = vec![];
    for ep in 0..n_ep {
        let h = hosts[ep as usize % hosts.len()].clone();
        let v = h.get(Cmd::Ext(
            "pay.join".into(),
            json!({"ep": ep, "ident": w.ident, "label": [format!("@{ep}")]}),
        ));
        if let Some(e) = v["err"].as_str() {
            OUT.violation(format!("join:{e}"), "join");
            return;
        }
        eps.push((ep, h));
    }
    let mut k = 0u64;
    for _ in 0..20 {
        let from = r.pick(&eps).clone();
        let to = r.pick(&eps).clone();
        let n = r.range(1, 25);
        let (h, a) = (
            from.1.clone(),
            json!({"ep": from.0, "seed": seed, "k": k, "n": n, "op": Op::leaf(&format!("@{}", to.0))}),
        );
        // An endpoint that sends to itself cannot have more in flight than fits
        let batches: Vec<(u64, u64)> = if from.0 == to.0 {
            (0..n).map(|i| (k + i, 1)).collect()
        } else {
            vec![(k, n)]
        };
        for (k, n) in batches {
            let (h, mut a) = (h.clone(), a.clone());
            a["k"] = k.into();
            a["n"] = n.into();
            let t = std::thread::spawn(move || h.get(Cmd::Ext("pay.send".into(), a)));
            if from.0 == to.0 {
                while !t.is_finished() {
                    sleep_us(50);
                }
            }
            let v = to.1.get(Cmd::Ext(
                "pay.recv".into(),
                json!({"ep": to.0, "seed": seed, "k": k, "n": n}),
            ));
            let s = t.join().unwrap();
            for b in v["bad"].as_array().into_iter().chain(s["bad"].as_array()).flatten() {
                let what = b[1].as_str().unwrap_or("");
                OUT.violation(
                    format!("payload:{}", what.split([':', ' ']).next().unwrap_or("")),
                    format!("value {} from endpoint {} to {}: {what}", b[0], from.0, to.0),
                );
                if OUT.violated() {
                    return;
                }
            }
        }
        for i in k..k + n {
            let p = value(seed, i);
            let size = p.encode().unwrap().len();
            OUT.distinct(format!("{:x}", hash(&p.encode().unwrap())));
            OUT.max("payload", size as u64);
        }
        k += n;
    }
    OUT.count("values", k);
    OUT.sample(json!({"values": (0..3).map(|i| brief(&value(seed, i))).collect::<Vec<_>>()}));
}

/// Every size in a window, so that all of 0..=64 KiB is swept over the seeds.
pub fn sizes(seed: u64) {
    let mut r = Rng::of(&[seed, 55]);
    let ident = ident(&mut r);
    let join = |l: &str| {
        ipmb::join::<SBox, BytesMessage>(
            ipmb::Options::new(ident.clone(), ipmb::label!(l), "t"),
            Some(ms(60_000)),
        )
        .unwrap_or_else(|e| {
            OUT.violation(format!("join:{}", join_err(&e)), "join");
            OUT.finish()
        })
    };
    let (tx0, _rx0) = join("host");
    let (tx1, mut rx1) = join("x");
    let start = (seed % 128) * 512;
    for enc in start..start + 513 {
        // encoded size = 1 (format 0) + prefix + data
        let data = match enc {
            0 | 1 => None,
            n if n <= 252 => Some(n - 2),
            n if n >= 255 => Some(n - 4),
            _ => continue,
        };
        let (payload, want) = match data {
            None => (
                SBox {
                    uuid: Unit::UUID,
                    data: vec![],
                },
                None,
            ),
            Some(n) => {
                let d = Rng::of(&[enc, seed]).fill(n as usize);
                let b = BytesMessage {
                    format: 0,
                    data: d.clone(),
                };
                let s = SBox::of(&b);
                if s.data.len() as u64 != enc {
                    harness_error(format!("size {} instead of {enc}", s.data.len()));
                }
                (s, Some(d))
            }
        };
        let tx = if enc % 2 == 0 { &tx0 } else { &tx1 };
        if let Err(e) = tx.send(Message::new(Selector::unicast("x"), payload)) {
            OUT.violation("payload:send", format!("encoded size {enc}: {e}"));
            return;
        }
        if let Some(want) = want {
            let got = match enc % 3 {
                0 => must_return("recv of a message that is due", 40, || rx1.recv(None)),
                _ => rx1.recv(Some(ms(20_000))),
            };
            match got {
                Ok(m) if m.payload.data == want && m.payload.format == 0 => {}
                Ok(m) => {
                    OUT.violation(
                        "payload:got",
                        format!("encoded size {enc}: {} bytes arrived, different", m.payload.data.len()),
                    );
                    return;
                }
                Err(e) => {
                    OUT.violation("payload:recv", format!("encoded size {enc}: {}", recv_err(&e)));
                    return;
                }
            }
            OUT.count("values", 1);
            OUT.distinct(format!("size{enc}"));
        }
    }
}

// ---------------------------------------------------------------- C06

macro_rules! ty {
    ($n:ident, $u:literal) => {
        #[derive(Debug, Serialize, Deserialize, TypeUuid, PartialEq, Clone)]
        #[uuid = $u]
        pub struct $n {
            n: u64,
            flag: bool,
            s: String,
        }
    };
}
ty!(TA, "2b1b0a54-07a2-4a51-9e0f-2f0c7cc9f001");
ty!(TB, "2b1b0a54-07a2-4a51-9e0f-2f0c7cc9f002");
ty!(TC, "2b1b0a54-07a2-4a51-9e0f-2f0c7cc9f003");
// Differs from TA in the first and in the last byte only
ty!(TD, "3b1b0a54-07a2-4a51-9e0f-2f0c7cc9f001");
ty!(TE, "2b1b0a54-07a2-4a51-9e0f-2f0c7cc9f0ff");

#[derive(ipmb::MessageBox, Debug)]
pub enum RAB {
    A(TA),
    B(TB),
}
#[derive(ipmb::MessageBox, Debug)]
pub enum RC {
    C(TC),
}
#[derive(ipmb::MessageBox, Debug)]
pub enum RAll {
    E(TE),
    D(TD),
    C(TC),
    B(TB),
    A(TA),
}

trait Seen {
    fn seen(self) -> (char, u64, bool, String);
}
macro_rules! seen {
    ($c:literal, $t:ident) => {
        impl Seen for $t {
            fn seen(self) -> (char, u64, bool, String) {
                ($c, self.n, self.flag, self.s)
            }
        }
    };
}
seen!('A', TA);
seen!('B', TB);
seen!('C', TC);
seen!('D', TD);
seen!('E', TE);
impl Seen for RAB {
    fn seen(self) -> (char, u64, bool, String) {
        match self {
            RAB::A(x) => x.seen(),
            RAB::B(x) => x.seen(),
        }
    }
}
impl Seen for RC {
    fn seen(self) -> (char, u64, bool, String) {
        match self {
            RC::C(x) => x.seen(),
        }
    }
}
impl Seen for RAll {
    fn seen(self) -> (char, u64, bool, String) {
        match self {
            RAll::A(x) => x.seen(),
            RAll::B(x) => x.seen(),
            RAll::C(x) => x.seen(),
            RAll::D(x) => x.seen(),
            RAll::E(x) => x.seen(),
        }
    }
}

fn collect<R: MessageBox + Seen>(ident: &str, label: &str, want: Vec<Result<(char, u64, bool, String), u64>>, r: &mut Rng)
    -> std::thread::JoinHandle<()> {
    let o = ipmb::Options::new(ident, ipmb::label!(label), "t");
    let (_tx, mut rx) = match ipmb::join::<SBox, R>(o, Some(ms(60_000))) {
        Ok(x) => x,
        Err(e) => {
            OUT.violation(format!("join:{}", join_err(&e)), "join");
            OUT.finish()
        }
    };
    let label = label.to_owned();
    let style = r.below(4);
    std::thread::spawn(move || {
        let _keep = _tx;
        let mut next_timeouts = 0;
        let mut i = 0;
        while i < want.len() {
            let w = &want[i];
            let t = match style {
                0 => Some(ms(20_000)),
                // Very short: messages of other types must not use up the chance
                1 => Some(ms(1)),
                2 => Some(ms(0)),
                _ => None,
            };
            let got = match t {
                Some(_) => rx.recv(t),
                None => must_return("recv of a message that is due", 40, || rx.recv(t)),
            };
            let got = match got {
                Err(ipmb::RecvError::Timeout) => {
                    next_timeouts += 1;
                    if style == 0 || next_timeouts > 20_000_000 {
                        OUT.violation("typed:lost", format!("{label}: nothing instead of item {i} {w:?}"));
                        return;
                    }
                    if style == 2 {
                        sleep_us(20);
                    }
                    continue;
                }
                Err(ipmb::RecvError::Decode(_)) => None,
                Err(e) => {
                    OUT.violation("typed:error", format!("{label}: item {i} {w:?}: {e}"));
                    return;
                }
                Ok(m) => Some(m.payload.seen()),
            };
            match (&got, w) {
                (Some(g), Ok(w)) if g == w => {}
                (None, Err(_)) => {}
                _ => {
                    OUT.violation(
                        "typed:sequence",
                        format!("{label}: item {i} is {got:?} instead of {w:?}"),
                    );
                    return;
                }
            }
            OUT.count("received", got.is_some() as u64);
            OUT.count("decode_errors", got.is_none() as u64);
            i += 1;
        }
        if let Ok(m) = rx.recv(Some(ms(30))) {
            OUT.violation(
                "typed:extra",
                format!("{label}: {:?} after the end", m.payload.seen()),
            );
        }
    })
}

pub fn typed(seed: u64) {
    let mut r = Rng::of(&[seed, 6]);
    let ident = ident(&mut r);
    let n = r.range(20, 200);
    // The program: (type, value or broken)
    let mut items: Vec<(char, u64, bool, String, Option<Vec<u8>>)> = vec![];
    for i in 0..n {
        let t = *r.pick(&['A', 'A', 'B', 'C', 'D', 'E', '?']);
        let s = text(&mut r, 30);
        let (num, flag) = (i, r.pct(50));
        let broken = if r.pct(20) {
            let good = ipmb::encode(TA {
                n: num,
                flag,
                s: format!("{s}xx"),
            })
            .unwrap();
            Some(match r.below(5) {
                // truncated in a place where something is still missing
                0 => good[..good.len() - 1 - r.below(2) as usize].to_vec(),
                1 => vec![],
                // a bool that is none
                2 => {
                    let mut g = ipmb::encode(5u64).unwrap();
                    g.push(2 + r.below(250) as u8);
                    g.extend(r.fill(20));
                    g
                }
                // not UTF-8
                3 => {
                    let mut g = ipmb::encode((5u64, true)).unwrap();
                    g.extend([4, 0xff, 0xfe, 0x80, 0x41]);
                    g
                }
                // an absurd length
                _ => {
                    let mut g = ipmb::encode((5u64, true, u64::MAX >> r.below(30))).unwrap();
                    g.extend(r.fill(9));
                    g
                }
            })
        } else {
            None
        };
        items.push((t, num, flag, s, broken));
    }
    let want = |types: &str| -> Vec<Result<(char, u64, bool, String), u64>> {
        items
            .iter()
            .filter(|i| types.contains(i.0))
            .map(|i| match &i.4 {
                None => Ok((i.0, i.1, i.2, i.3.clone())),
                Some(_) => Err(i.1),
            })
            .collect()
    };
    let mut hs = vec![];
    let mut kinds = vec![0, 1, 2, 3, 4];
    r.shuffle(&mut kinds);
    // The first becomes the controller
    for k in &kinds {
        hs.push(match k {
            0 => collect::<RAB>(&ident, "AB", want("AB"), &mut r),
            1 => collect::<RC>(&ident, "C", want("C"), &mut r),
            2 => collect::<RAll>(&ident, "ABCDE", want("ABCDE"), &mut r),
            3 => collect::<TA>(&ident, "A", want("A"), &mut r),
            _ => collect::<TD>(&ident, "D", want("D"), &mut r),
        });
    }
    let (tx, _rx) = match ipmb::join::<SBox, TE>(
        ipmb::Options::new(ident.clone(), ipmb::label!("sender"), "t"),
        Some(ms(60_000)),
    ) {
        Ok(x) => x,
        Err(e) => {
            OUT.violation(format!("join:{}", join_err(&e)), "join");
            return;
        }
    };
    let rx = std::thread::spawn({
        let mut rx = _rx;
        let n = want("E").len();
        move || {
            // Drains, the sender is a receiver of its own multicasts
            let mut k = 0;
            while k < n {
                match rx.recv(Some(ms(20_000))) {
                    Err(ipmb::RecvError::Timeout) => {
                        OUT.violation("typed:lost", "at the sender");
                        return;
                    }
                    _ => k += 1,
                }
            }
        }
    });
    for (t, n, flag, s, broken) in &items {
        let uuid = match t {
            'A' => TA::UUID,
            'B' => TB::UUID,
            'C' => TC::UUID,
            'D' => TD::UUID,
            'E' => TE::UUID,
            _ => {
                let mut u = [0; 16];
                u.copy_from_slice(&r.fill(16));
                if r.pct(70) {
                    // Nearly one of those that are declared
                    let i = r.below(16) as usize;
                    let x = u[0].max(1);
                    u = *r.pick(&[TA::UUID, TB::UUID, TC::UUID]);
                    u[i] ^= x;
                    if [TA::UUID, TB::UUID, TC::UUID, TD::UUID, TE::UUID].contains(&u) {
                        u = [0x77; 16];
                    }
                }
                u
            }
        };
        let data = broken.clone().unwrap_or_else(|| {
            ipmb::encode(TA {
                n: *n,
                flag: *flag,
                s: s.clone(),
            })
            .unwrap()
        });
        if let Err(e) = tx.send(Message::new(
            Selector::multicast(ipmb::LabelOp::True),
            SBox { uuid, data },
        )) {
            OUT.violation("typed:send", format!("{e}"));
            return;
        }
    }
    for h in hs {
        must_return("a receiver of typed messages", 60, || {
            let _ = h.join();
        });
    }
    must_return("the sender's receiver", 60, || {
        let _ = rx.join();
    });
    OUT.count("sent", n);
    OUT.distinct(format!("{:x}", hash(format!("{items:?}{kinds:?}").as_bytes())));
    OUT.sample(json!({"controller": kinds[0], "items": items.iter().take(12).map(|i| format!("{}{}", i.0, if i.4.is_some() {"!"} else {""})).collect::<Vec<_>>()}));
}
