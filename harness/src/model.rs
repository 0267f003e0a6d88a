//! The offline checker of delivery histories.
//!
//! It knows nothing of the implementation: it is given the intervals of sends, joins, departures and
//! the moments of receives, and decides which of the documented guarantees they refute.
use crate::node::Ev;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug)]
pub struct Member {
    pub set: BTreeSet<String>,
    pub jb: u64,
    pub je: u64,
    /// When it began to leave, and when it had left for sure
    pub xb: Option<u64>,
    pub xe: Option<u64>,
}

#[derive(Clone, Debug)]
pub struct Sent {
    pub b: u64,
    pub e: u64,
    pub err: Option<String>,
    pub ep: u32,
    pub uni: bool,
    pub op: Op,
    pub ttl: u64,
    pub len: u32,
    pub kind: u8,
}

#[derive(Default)]
pub struct Rules {
    /// Messages whose send overlaps one of these windows may be lost (the controller died in it)
    pub loss: Vec<(u64, u64)>,
    pub allow_send_err: bool,
    /// Do not demand that anything arrives
    pub no_must: bool,
    /// Endpoints (by id) that receive only now and then: deliveries to them are checked, but not demanded
    pub lenient: BTreeSet<u32>,
    /// Sends are known to be refused by the transport when this long
    pub max_len: Option<u32>,
    /// The senders whose messages must have arrived by now (all if None)
    pub settled: Option<BTreeSet<u32>>,
    /// The bus of an endpoint, if there are several
    pub bus: BTreeMap<u32, u32>,
    /// Messages that nobody of ours has sent may arrive too (with bodies that do not fit)
    pub foreign: bool,
    /// Nothing is demanded of the messages of these senders
    pub ignore: BTreeSet<u32>,
    /// There must be one order of all messages that explains every receive and every send
    pub one_order: bool,
    /// recv may report these errors
    pub allow_err: BTreeSet<String>,
}

#[derive(Default)]
pub struct History {
    pub sent: BTreeMap<(u32, u32), Sent>,
    pub recv: BTreeMap<u32, Vec<(u64, u32, u32, u32, u8, bool)>>,
    pub members: BTreeMap<u32, Member>,
    pub errors: Vec<(u32, u64, String)>,
}

impl History {
    pub fn build(evs: &[Ev]) -> History {
        let mut h = History::default();
        for ev in evs {
            match ev {
                Ev::S {
                    sid,
                    seq,
                    b,
                    e,
                    err,
                    ep,
                    uni,
                    op,
                    ttl,
                    len,
                    kind,
                } => {
                    let s = Sent {
                        b: *b,
                        e: *e,
                        err: err.clone(),
                        ep: *ep,
                        uni: *uni,
                        op: op.clone(),
                        ttl: *ttl,
                        len: *len,
                        kind: *kind,
                    };
                    match h.sent.get(&(*sid, *seq)) {
                        Some(old) if old.e != 0 => {
                            if s.e != 0 {
                                harness_error(format!("message {sid}.{seq} sent twice"));
                            }
                        }
                        _ => {
                            h.sent.insert((*sid, *seq), s);
                        }
                    }
                }
                Ev::J {
                    ep,
                    b,
                    e,
                    err,
                    label,
                } => {
                    if err.is_none() {
                        h.members.insert(
                            *ep,
                            Member {
                                set: set_of(label),
                                jb: *b,
                                je: *e,
                                xb: None,
                                xe: None,
                            },
                        );
                    }
                }
                Ev::R {
                    ep,
                    t,
                    sid,
                    seq,
                    len,
                    kind,
                    ok,
                } => h
                    .recv
                    .entry(*ep)
                    .or_default()
                    .push((*t, *sid, *seq, *len, *kind, *ok)),
                Ev::E { ep, t, err } => h.errors.push((*ep, *t, err.clone())),
                Ev::C { .. } | Ev::K { .. } => {}
            }
        }
        for ev in evs {
            let (ep, b, e) = match ev {
                Ev::C { ep, b, e } => (ep, *b, *e),
                Ev::K { ep, t } => (ep, *t, *t),
                _ => continue,
            };
            if let Some(m) = h.members.get_mut(ep) {
                m.xb = Some(m.xb.map_or(b, |x| x.min(b)));
                m.xe = Some(m.xe.map_or(e, |x| x.min(e)));
            }
        }
        h
    }

    /// The begin of a departure was earlier than what its log says (the command was given then).
    pub fn leaving(&mut self, ep: u32, b: u64, e: Option<u64>) {
        if let Some(m) = self.members.get_mut(&ep) {
            m.xb = Some(m.xb.map_or(b, |x| x.min(b)));
            if e.is_some() {
                m.xe = e;
            }
        }
    }

    pub fn check(&self, rules: &Rules) {
        let mut by_msg: HashMap<(u32, u32), Vec<(u32, u64)>> = HashMap::new();
        let mut first_seen: HashMap<u32, Vec<(u64, u32)>> = HashMap::new();
        // The latest message of each sender that an endpoint has received
        let mut latest: HashMap<(u32, u32), u32> = HashMap::new();
        let mut digest = 0u64;
        let mut deliveries = 0u64;
        let (mut carrying, mut long_lived) = (0u64, 0u64);

        for (ep, rs) in &self.recv {
            let m = match self.members.get(ep) {
                Some(m) => m,
                None => {
                    OUT.violation("model:receive without join", format!("endpoint {ep}"));
                    continue;
                }
            };
            let mut last: HashMap<u32, u32> = HashMap::new();
            let mut seen: BTreeSet<(u32, u32)> = BTreeSet::new();
            let mut d = *ep as u64;
            for (t, sid, seq, len, kind, ok) in rs {
                if rules.ignore.contains(sid) || rules.foreign && (!*ok || !self.sent.contains_key(&(*sid, *seq))) {
                    continue;
                }
                deliveries += 1;
                d = (d ^ (*sid as u64) << 32 ^ *seq as u64).wrapping_mul(0x1000_0000_01b3);
                by_msg.entry((*sid, *seq)).or_default().push((*ep, *t));
                first_seen.entry(*sid).or_default().push((*t, *seq));
                let what = || format!("message {sid}.{seq} at endpoint {ep}");
                let s = match self.sent.get(&(*sid, *seq)) {
                    Some(s) => s,
                    None => {
                        OUT.violation("model:phantom", format!("{} was never sent", what()));
                        continue;
                    }
                };
                if !*ok || *len != s.len || *kind != s.kind {
                    OUT.violation(
                        "model:payload",
                        format!(
                            "{}: len {len} kind {kind} body ok {ok}, sent len {} kind {}",
                            what(),
                            s.len,
                            s.kind
                        ),
                    );
                }
                if rules.bus.get(ep) != rules.bus.get(&s.ep) {
                    OUT.violation(
                        "model:other bus",
                        format!("{} came from endpoint {} of another identifier", what(), s.ep),
                    );
                }
                if !s.op.eval(&m.set) {
                    OUT.violation(
                        "model:misdelivered",
                        format!("{} sent to {:?}, label {:?}", what(), s.op, m.set),
                    );
                }
                if !seen.insert((*sid, *seq)) {
                    OUT.violation("model:duplicate", format!("{} received twice", what()));
                } else if let Some(l) = last.get(sid) {
                    if *seq < *l {
                        OUT.violation("model:order", format!("{} after {sid}.{l}", what()));
                    }
                }
                carrying += (kind & crate::node::ATT != 0) as u64;
                long_lived += (s.ttl > 3600_000_000_000) as u64;
                let l = last.entry(*sid).or_insert(*seq);
                *l = (*l).max(*seq);
            }
            for (sid, seq) in last {
                latest.insert((*ep, sid), seq);
            }
            digest ^= d;
        }

        // When was a message of this sender later than seq first seen anywhere?
        for v in first_seen.values_mut() {
            v.sort();
        }

        let in_loss = |s: &Sent| {
            s.e == 0
                || rules
                    .loss
                    .iter()
                    .any(|(a, z)| s.b <= *z && s.e >= *a)
        };
        let (mut musts, mut uni_musts, mut after_departure) = (0u64, 0u64, 0u64);
        for ((sid, seq), s) in &self.sent {
            if rules.ignore.contains(sid) {
                continue;
            }
            let got = by_msg.get(&(*sid, *seq)).map(|v| &v[..]).unwrap_or(&[]);
            let what = || {
                format!(
                    "message {sid}.{seq} ({}, {:?}, ttl {} ms, len {}, from endpoint {})",
                    if s.uni { "unicast" } else { "multicast" },
                    s.op,
                    s.ttl / 1_000_000,
                    s.len,
                    s.ep
                )
            };
            if let Some(err) = &s.err {
                if !rules.allow_send_err {
                    OUT.violation(
                        format!("send:{}", err.split(':').next().unwrap_or("")),
                        format!("{} failed: {err}", what()),
                    );
                }
                continue;
            }
            if s.uni && got.len() > 1 {
                OUT.violation(
                    "model:unicast consumed twice",
                    format!("{} by {:?}", what(), got),
                );
            }
            for (ep, t) in got {
                let m = &self.members[ep];
                if s.ttl == 0 && s.e != 0 {
                    // Routed already when a later message of the same thread had been received
                    if let Some((t1, q1)) = first_seen[sid].iter().find(|(_, q)| q > seq) {
                        if *t1 < m.jb && *t > *t1 && !in_loss(s) {
                            OUT.violation(
                                "model:delivered to a later join",
                                format!(
                                    "{} at endpoint {ep} which joined after {sid}.{q1} was received",
                                    what()
                                ),
                            );
                        }
                    }
                }
            }
            if rules.no_must
                || rules.settled.as_ref().map_or(false, |x| !x.contains(sid))
                || in_loss(s) || rules.max_len.map_or(false, |m| s.len > m) {
                continue;
            }
            let mut stable = vec![];
            let mut joiners = 0;
            let mut unsure = 0;
            let mut departed = false;
            // Routed for sure when a later message of the same thread had been received
            let routed = first_seen
                .get(sid)
                .and_then(|v| v.iter().find(|(_, q)| q > seq))
                .map_or(u64::MAX, |(t, _)| *t);
            for (ep, m) in &self.members {
                if m.jb > routed {
                    continue;
                }
                if rules.bus.get(ep) != rules.bus.get(&s.ep) {
                    continue;
                }
                if !s.op.eval(&m.set) {
                    continue;
                }
                if m.xe.map_or(false, |x| x <= s.b) {
                    departed = true;
                    continue;
                }
                // Who has received a later message of the same thread has received all before it
                let passed = latest.get(&(*ep, *sid)).map_or(false, |l| l > seq);
                if !passed && (m.xb.is_some() || rules.lenient.contains(ep)) {
                    unsure += 1;
                } else if m.je <= s.b {
                    stable.push(*ep);
                } else {
                    joiners += 1;
                }
            }
            if s.uni {
                if !stable.is_empty() {
                    musts += 1;
                    if unsure == 0 {
                        uni_musts += 1;
                        after_departure += departed as u64;
                    }
                    if unsure == 0 && got.is_empty() {
                        OUT.violation(
                            "model:unicast lost",
                            format!("{} had the receivers {stable:?} (+{joiners} joining)", what()),
                        );
                    }
                }
            } else {
                after_departure += (departed && !stable.is_empty()) as u64;
                for ep in stable {
                    musts += 1;
                    if !got.iter().any(|(e, _)| *e == ep) {
                        OUT.violation(
                            "model:multicast lost",
                            format!("{} did not reach endpoint {ep}, only {:?}", what(), got),
                        );
                    }
                }
            }
        }
        if rules.one_order {
            self.one_order();
        }
        for (ep, _, err) in &self.errors {
            if !rules.allow_err.contains(err) {
                OUT.violation(
                    format!("recv:{}", err.split(' ').next().unwrap_or("")),
                    format!("recv of endpoint {ep} failed: {err}"),
                );
            }
        }
        OUT.count("messages", self.sent.len() as u64);
        OUT.count("deliveries", deliveries);
        OUT.count("deliveries_with_attachments", carrying);
        OUT.count("deliveries_long_lived", long_lived);
        OUT.count("deliveries_demanded", musts);
        OUT.count("demanded_after_departure", after_departure);
        OUT.count("unicasts_demanded", uni_musts);
        OUT.count("endpoints", self.members.len() as u64);
        OUT.distinct(format!("history:{digest:x}"));
    }
    /// Looks for an order of the messages in which every endpoint received its own, and in which what
    /// had been received anywhere comes before what was sent afterwards.
    fn one_order(&self) {
        let mut id: HashMap<(u32, u32), usize> = HashMap::new();
        let mut name: Vec<(u32, u32)> = vec![];
        // (time, what it says, message): received for the first time, or about to be sent
        let mut first: HashMap<usize, u64> = HashMap::new();
        let mut seqs: Vec<(u32, Vec<usize>)> = vec![];
        for (ep, rs) in &self.recv {
            let mut v: Vec<usize> = vec![];
            for (t, sid, seq, ..) in rs {
                let n = *id.entry((*sid, *seq)).or_insert_with(|| {
                    name.push((*sid, *seq));
                    name.len() - 1
                });
                let f = first.entry(n).or_insert(*t);
                *f = (*f).min(*t);
                v.push(n);
            }
            seqs.push((*ep, v));
        }
        let mut times: Vec<(u64, bool, usize)> = vec![];
        for (k, n) in name.iter().enumerate() {
            times.push((first[&k], true, k));
            if let Some(s) = self.sent.get(n) {
                times.push((s.b, false, k));
            }
        }
        // At the same moment nothing is demanded
        times.sort();
        let m = name.len();
        let mut next: Vec<Vec<(usize, u32)>> = vec![vec![]; m + times.len()];
        let mut indeg = vec![0u32; m + times.len()];
        let mut edge = |a: usize, b: usize, why: u32| {
            next[a].push((b, why));
            indeg[b] += 1;
        };
        for (ep, v) in &seqs {
            for p in v.windows(2) {
                edge(p[0], p[1], *ep);
            }
        }
        for (i, (_, received, k)) in times.iter().enumerate() {
            if i > 0 {
                edge(m + i - 1, m + i, 0);
            }
            if *received {
                edge(*k, m + i, 0);
            } else {
                edge(m + i, *k, 0);
            }
        }
        let mut todo: Vec<usize> = (0..indeg.len()).filter(|i| indeg[*i] == 0).collect();
        let mut done = 0;
        while let Some(i) = todo.pop() {
            done += 1;
            for (j, _) in &next[i] {
                indeg[*j] -= 1;
                if indeg[*j] == 0 {
                    todo.push(*j);
                }
            }
        }
        let shared = seqs.iter().map(|(_, v)| v.len() as u64).sum::<u64>() - m as u64;
        OUT.count("receives_ordered", shared);
        if done == indeg.len() {
            return;
        }
        // A circle: forward from anything that is left one stays among what is left, or ends
        let mut prev: Vec<Vec<(usize, u32)>> = vec![vec![]; indeg.len()];
        for (a, v) in next.iter().enumerate() {
            for (b, why) in v {
                if indeg[a] > 0 && indeg[*b] > 0 {
                    prev[*b].push((a, *why));
                }
            }
        }
        let mut at = (0..indeg.len()).find(|i| indeg[*i] > 0).unwrap();
        let mut seen: HashMap<usize, usize> = HashMap::new();
        let mut path = vec![];
        while !seen.contains_key(&at) {
            seen.insert(at, path.len());
            let (a, why) = prev[at][0];
            path.push((a, at, why));
            at = a;
        }
        let mut text: Vec<String> = path[seen[&at]..]
            .iter()
            .rev()
            .filter(|(a, b, _)| *a < m || *b < m)
            .map(|(a, b, why)| {
                let n = |i: usize| name[i];
                match (*a < m, *b < m) {
                    (true, true) => format!("endpoint {why} received {:?} before {:?}", n(*a), n(*b)),
                    (true, false) => format!("{:?} had been received,", n(*a)),
                    _ => format!("then {:?} was sent", n(*b)),
                }
            })
            .collect();
        text.truncate(12);
        OUT.violation("order:no common order", text.join("; "));
    }
}
