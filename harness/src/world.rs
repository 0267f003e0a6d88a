//! A world: the processes, endpoints and logs of one scenario.
use crate::model::*;
use crate::node::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::PathBuf;
use std::sync::Arc;

pub struct World {
    pub dir: PathBuf,
    pub ident: String,
    pub rng: Rng,
    pub seed: u64,
    pub here: Arc<Node>,
    pub peers: Vec<Arc<Peer>>,
    pub tails: Vec<Tail>,
    pub evs: Vec<Ev>,
    pub at: HashMap<u32, Host>,
    pub next_ep: u32,
    pub next_sid: u32,
    pub exe: String,
    /// How often an endpoint has the very label of another one
    pub twins_pct: u64,
    /// Messages are to wait in vain
    pub backdrop: bool,
    pub labels: Vec<Vec<String>>,
}

impl World {
    pub fn new(seed: u64) -> World {
        start_canary();
        let dir = PathBuf::from(
            std::env::var("VH_DIR").unwrap_or_else(|_| harness_error("VH_DIR is not set")),
        );
        let mut rng = Rng::new(seed);
        let ident = ident(&mut rng);
        let here = Node::new("main", &dir);
        let tails = vec![Tail::new(dir.join("log.main"))];
        World {
            ident,
            rng,
            seed,
            here,
            peers: vec![],
            tails,
            evs: vec![],
            at: HashMap::new(),
            next_ep: 1,
            next_sid: 1,
            exe: std::env::current_exe()
                .unwrap()
                .to_string_lossy()
                .into_owned(),
            dir,
            twins_pct: 0,
            backdrop: Rng::of(&[seed, 4712]).pct(30),
            labels: vec![],
        }
    }

    pub fn here(&self) -> Host {
        Host::Here(self.here.clone())
    }

    pub fn peer(&mut self) -> Host {
        self.peer_env(&[])
    }

    pub fn peer_env(&mut self, env: &[(&str, String)]) -> Host {
        let exe = match std::env::var("VH_PEER_EXES") {
            // Other builds of the library among them
            Ok(v) => {
                let exes: Vec<&str> = v.split(',').collect();
                let exe = self.rng.pick(&exes).to_string();
                if exe != self.exe {
                    OUT.count("peers_of_another_build", 1);
                }
                exe
            }
            Err(_) => self.exe.clone(),
        };
        self.peer_exe(&exe, env)
    }

    pub fn peer_exe(&mut self, exe: &str, env: &[(&str, String)]) -> Host {
        let name = format!("p{}", self.peers.len());
        let env: Vec<(String, String)> = env
            .iter()
            .map(|(k, v)| (k.to_string(), v.clone()))
            .collect();
        let p = Peer::spawn(&name, exe, &self.dir, &env);
        self.tails.push(Tail::new(self.dir.join(format!("log.{name}"))));
        self.peers.push(p.clone());
        Host::Peer(p)
    }

    pub fn hosts(&self) -> Vec<Host> {
        let mut v = vec![self.here()];
        v.extend(self.peers.iter().cloned().map(Host::Peer));
        v
    }

    pub fn ep(&mut self, h: &Host) -> u32 {
        let e = self.next_ep;
        self.next_ep += 1;
        self.at.insert(e, h.clone());
        e
    }

    pub fn sid(&mut self) -> u32 {
        self.next_sid += 1;
        self.next_sid - 1
    }

    /// Joins an endpoint with this label plus a tag of its own, receiving by itself.
    pub fn join(&mut self, h: &Host, label: &[String], f: impl FnOnce(&mut JoinSpec)) -> u32 {
        let j = self.spec(h, label, f);
        let ep = j.ep;
        h.must_join(j);
        if std::mem::take(&mut self.backdrop) {
            // All that follows happens while messages that nobody comes for wait
            let mut r = Rng::of(&[self.seed, 4711]);
            let sid = self.sid();
            for seq in 0..r.range(1, 4) as u32 {
                let mut s = SendSpec::new(ep, sid, seq, Op::leaf("somebody who never comes")).len(r.below(300) as u32 + 16);
                s.uni = r.pct(50);
                s.ttl_ns = *r.pick(&[3_600_000_000_000, 30 * 86_400_000_000_000, u64::MAX]);
                h.get(Cmd::Send(s));
            }
            OUT.count("backdrops", 1);
        }
        ep
    }

    pub fn spec(&mut self, h: &Host, label: &[String], f: impl FnOnce(&mut JoinSpec)) -> JoinSpec {
        let ep = self.ep(h);
        let mut j = JoinSpec::new(ep, &self.ident, &[]);
        j.label = label.to_vec();
        j.label.push(format!("@{ep}"));
        if self.twins_pct > 0 && !self.labels.is_empty() && self.rng.pct(self.twins_pct) {
            j.label = self.rng.pick(&self.labels).clone();
            OUT.count("twins", 1);
        }
        self.labels.push(j.label.clone());
        f(&mut j);
        j
    }

    pub fn poll(&mut self) -> usize {
        let mut n = 0;
        for t in &mut self.tails {
            n += t.poll(&mut self.evs);
        }
        n
    }

    /// Runs these bursts at the same time, each in its own thread. Returns the next sequence number
    /// of each sid.
    pub fn bursts(&mut self, bs: Vec<(Host, Burst)>) -> BTreeMap<u32, u32> {
        let hs: Vec<_> = bs
            .into_iter()
            .map(|(h, b)| {
                std::thread::spawn(move || {
                    let sid = b.sid;
                    let r = h.call(Cmd::Burst(b));
                    (sid, r.ok().and_then(|v| v["seq"].as_u64()).unwrap_or(0) as u32)
                })
            })
            .collect();
        let mut out = BTreeMap::new();
        let start = now_ns();
        reset_overshoot();
        for h in hs {
            while !h.is_finished() {
                self.poll();
                sleep_us(500);
                if now_ns() - start > 100_000_000_000 {
                    if worst_overshoot_ms() < 1500 {
                        OUT.violation("stuck:sends", "sends have not returned for 100 s");
                    } else {
                        OUT.inconclusive("sends have not returned for 100 s, machine stalled");
                    }
                    OUT.finish();
                }
            }
            let (sid, seq) = h.join().unwrap();
            out.insert(sid, seq);
        }
        out
    }

    pub fn burst(&mut self, ep: u32, n: u32, ops: Vec<Op>) -> Burst {
        Burst {
            ep,
            sid: self.sid(),
            seq0: 0,
            n,
            seed: self.rng.u64(),
            ops,
            uni_pct: 0,
            lens: vec![0, 1, 7, 64, 300],
            ttls_ms: vec![0],
            gap_us: 0,
            barrier: true,
            clone: true,
            announce: false,
            att_pct: 0,
            odd_pct: 0,
            long_pct: 0,
        }
    }

    /// Waits until every endpoint has received the barrier (the last message) of each sid. If the
    /// bus falls silent before that, the barrier is lost or the bus is stuck.
    pub fn settle(&mut self, barriers: &BTreeMap<u32, u32>, eps: &BTreeSet<u32>) -> bool {
        let want: BTreeSet<(u32, u32, u32)> = barriers
            .iter()
            .filter(|(_, n)| **n > 0)
            .flat_map(|(sid, n)| eps.iter().map(move |e| (*e, *sid, *n - 1)))
            .collect();
        let mut missing = want;
        let mut from = 0;
        let start = now_ns();
        let mut last = start;
        reset_overshoot();
        loop {
            if self.poll() > 0 {
                last = now_ns();
            }
            for ev in &self.evs[from..] {
                if let Ev::R { ep, sid, seq, .. } = ev {
                    missing.remove(&(*ep, *sid, *seq));
                }
            }
            from = self.evs.len();
            if missing.is_empty() {
                return true;
            }
            let now = now_ns();
            let (silent, total) = (now - last, now - start);
            if silent > 8_000_000_000 && worst_overshoot_ms() < 1500 {
                let m: Vec<_> = missing.iter().take(6).collect();
                OUT.violation(
                    "model:barrier lost",
                    format!(
                        "the bus has been silent for {} s, but {} final multicasts have not arrived, e.g. (endpoint, sender, seq) {m:?}",
                        silent / 1_000_000_000,
                        missing.len()
                    ),
                );
                return false;
            }
            if silent > 60_000_000_000 || total > 120_000_000_000 {
                OUT.inconclusive(format!(
                    "{} final multicasts missing after {} s, machine stalled or still busy",
                    missing.len(),
                    total / 1_000_000_000
                ));
                return false;
            }
            sleep_us(1000);
        }
    }

    pub fn stable(&self) -> BTreeSet<u32> {
        let h = History::build(&self.evs);
        h.members
            .iter()
            .filter(|(_, m)| m.xb.is_none())
            .map(|(e, _)| *e)
            .collect()
    }

    pub fn check(&mut self, rules: &Rules) -> History {
        self.poll();
        let h = History::build(&self.evs);
        h.check(rules);
        h
    }

    /// Looks for descriptors closed twice (recorded by the shim).
    pub fn check_badclose(&self) {
        if let Ok(f) = std::env::var("VH_BADCLOSE") {
            if let Ok(s) = std::fs::read_to_string(f) {
                if !s.is_empty() {
                    OUT.violation(
                        "fd:close of a closed descriptor",
                        s.lines().take(3).collect::<Vec<_>>().join("; "),
                    );
                }
            }
        }
    }
}

pub fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// A small pool of label elements, odd ones among them.
pub fn pool(r: &mut Rng) -> Vec<String> {
    let mut v = strs(&["a", "b", "c"]);
    let odd = [
        "",
        " ",
        "A",
        "aa",
        "ab",
        "é",
        "名前",
        "x.y",
        "a long element that does not fit into the inline storage of a small string",
        "a long element that does not fit into the inline storage of a small strinG",
        "22 bytes of element --",
        "23 bytes of element ---",
        "24 bytes of element ----",
        "zero\0byte",
    ];
    for _ in 0..r.range(1, 4) {
        let o = r.pick(&odd).to_string();
        if !v.contains(&o) {
            v.push(o);
        }
    }
    if r.pct(10) {
        // Long ones that differ at their end, or only in their length
        let l = "long".repeat(*r.pick(&[16, 64, 300]) as usize);
        v.extend([format!("{l}1"), format!("{l}2"), l]);
    }
    if r.pct(8) {
        v.extend((0..r.range(20, 300)).map(|i| format!("n{i}")));
    }
    v
}

pub fn sublabel(r: &mut Rng, pool: &[String]) -> Vec<String> {
    let mut v: Vec<String> = pool.iter().filter(|_| r.pct(45)).cloned().collect();
    r.shuffle(&mut v);
    if r.pct(30) {
        // Inserted twice, removed, removed and inserted again
        for _ in 0..r.range(1, 4) {
            let e = r.pick(pool).clone();
            if r.pct(60) {
                v.push(format!("{}{e}", crate::util::REMOVE));
            } else {
                v.push(e);
            }
        }
    }
    v
}
