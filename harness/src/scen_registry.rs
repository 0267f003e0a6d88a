//! C10: the registry of memory regions.
use crate::node::*;
use crate::util::*;
use crate::world::*;
use ipmb::{MemoryRegion, MemoryRegistry, Message, Selector};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::os::fd::AsRawFd;
use std::os::unix::fs::MetadataExt;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;

fn ino(r: &MemoryRegion) -> u64 {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        libc::fstat(std::os::fd::BorrowedFd::borrow_raw(r.object().as_raw()).as_raw_fd(), &mut st);
        st.st_ino
    }
}

/// Receives and keeps regions for a while; nobody may write to them meanwhile.
pub fn ext(node: &Arc<Node>, name: &str, v: Value) -> Value {
    match name {
        // Allocations of ever other sizes and tags that are dropped at once, then maintenance
        "reg.sizes" => {
            struct Mine(MemoryRegistry);
            // No callbacks are given to it
            unsafe impl Send for Mine {}
            let mut e = node.ext.lock().unwrap();
            let b = e.entry("registry".into()).or_insert_with(|| Box::new(Mine(MemoryRegistry::default())));
            let reg = &mut b.downcast_mut::<Mine>().unwrap().0;
            let from = v["from"].as_u64().unwrap();
            for i in from..from + v["n"].as_u64().unwrap() {
                let tag = format!("a tag that is only used once and not short: {i}");
                drop(reg.alloc(i as usize * 7, Some(&tag)));
            }
            if v["maintain"] == true {
                crate::shim::clock_add(60_000_000_000);
                reg.maintain();
            }
            json!({})
        }
        "reg.consume" => {
            let ep = v["ep"].as_u64().unwrap() as u32;
            let n = v["n"].as_u64().unwrap();
            let mut r = Rng::new(v["seed"].as_u64().unwrap());
            let e = node.ep(ep);
            let mut held: Vec<(u32, MemoryRegion, u64)> = vec![];
            let mut bad = vec![];
            let mut rx = e.rx.lock().unwrap().take().unwrap();
            let mut verify = |seq: u32, m: &mut MemoryRegion, when: &str| {
                let n = m.buffer_size() as usize;
                match m.map(..) {
                    Ok(b) if b == &Rng::new(seq as u64).fill(n)[..] => {}
                    Ok(_) => bad.push(json!([seq, format!("overwritten ({when})")])),
                    Err(e) => bad.push(json!([seq, e.to_string()])),
                }
            };
            let mut count = 0;
            let mut last = now_ns();
            let mut failed = None;
            while count < n {
                match rx.recv(Some(ms(10_000))) {
                    Ok(g) => {
                        let seq = match g.p {
                            P::V(x) => x.seq,
                            _ => harness_error("type"),
                        };
                        for mut m in g.regions {
                            verify(seq, &mut m, "on arrival");
                            held.push((seq, m, now_ns() + r.below(3_000_000)));
                        }
                        count += 1;
                        last = now_ns();
                    }
                    // This process' clock may have been moved while it waited
                    Err(e) if e == "timeout" && now_ns() - last < 20_000_000_000 => {}
                    Err(e) => {
                        failed = Some(e);
                        break;
                    }
                }
                let now = now_ns();
                let mut i = 0;
                while i < held.len() {
                    if held[i].2 < now || held.len() > 20 {
                        let (seq, mut m, _) = held.swap_remove(i);
                        verify(seq, &mut m, "while held");
                    } else {
                        i += 1;
                    }
                }
            }
            for (seq, mut m, _) in held {
                verify(seq, &mut m, "at the end");
            }
            *e.rx.lock().unwrap() = Some(rx);
            json!({"bad": bad, "count": count, "failed": failed})
        }
        _ => harness_error(name),
    }
}

struct Alloc {
    tag: Option<String>,
    ino: u64,
    fill: u64,
    len: usize,
    /// handles outside of the registry
    here: Vec<MemoryRegion>,
    /// handles held by peers
    there: Vec<(Host, u32)>,
    /// how often free was called, if there is one
    freed: Option<Arc<AtomicU32>>,
}

impl Alloc {
    fn live(&self) -> bool {
        !self.here.is_empty() || !self.there.is_empty()
    }
}

pub fn registry(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 10]);
    let peer = w.peer();
    let host = w.here();
    let (first, second) = if r.pct(50) { (&host, &peer) } else { (&peer, &host) };
    let mut eps = vec![];
    for h in [first, second] {
        let ep = w.join(h, &[], |j| j.auto = false);
        eps.push((ep, h.clone()));
    }
    let my = eps.iter().find(|x| x.1.name() == "main").unwrap().0;
    let its = eps.iter().find(|x| x.1.name() != "main").unwrap().0;
    let tx = w.here.ep(my).tx.lock().unwrap().clone().unwrap();
    let mut reg = Some(MemoryRegistry::default());
    let mut allocs: Vec<Alloc> = vec![];
    let mut tags: BTreeMap<u64, Option<String>> = BTreeMap::new();
    let tagpool = [None, None, Some("a"), Some("b"), Some(""), Some("ab"), Some("ba"), Some("A"), Some("a ")];
    let base = [0u64, 1, 100, 4000, 5000, 9000];
    let mut hold = 1u32;
    let mut story: Vec<String> = vec![];
    let steps = r.range(60, 200);

    fn tail(s: &[String]) -> String {
        s.iter().rev().take(10).rev().cloned().collect::<Vec<_>>().join("; ")
    }
    fn content(a: &mut Alloc, story: &[String]) {
        let want = Rng::new(a.fill).fill(a.len);
        for m in &mut a.here {
            match m.map(..) {
                Ok(b) if *b == want[..] => {}
                Ok(b) => {
                    OUT.violation(
                        "registry:overwritten",
                        format!("a region of {} bytes that is in use has changed ({} now), after: {}", want.len(), b.len(), tail(story)),
                    );
                    OUT.finish();
                }
                Err(e) => {
                    OUT.violation("registry:map", format!("{e}"));
                    OUT.finish();
                }
            }
        }
        for (h, id) in &a.there {
            let v = h.get(Cmd::Ext("mr.map".into(), json!({"id": id, "lo": ["u"], "hi": ["u"]})));
            if v["before"] != hash(&want) {
                OUT.violation("registry:overwritten", format!("a region in use by a peer has changed, after: {}", tail(story)));
                OUT.finish();
            }
        }
    }
    // Callbacks: never twice, never early
    fn callbacks(allocs: &[Alloc], dropped: bool, all_due: bool, story: &[String]) {
        for (i, a) in allocs.iter().enumerate() {
            if let Some(f) = &a.freed {
                let n = f.load(Ordering::SeqCst);
                if n > 1 {
                    OUT.violation("registry:free twice", format!("allocation {i}, after: {}", tail(story)));
                    OUT.finish();
                }
                if n == 1 && a.live() && !dropped {
                    OUT.violation("registry:free early", format!("allocation {i} is still in use, after: {}", tail(story)));
                    OUT.finish();
                }
                if all_due && n == 0 && (dropped || !a.live()) {
                    OUT.violation("registry:free missing", format!("allocation {i}, after: {}", tail(story)));
                    OUT.finish();
                }
            }
        }
    }

    for _ in 0..steps {
        let c = r.below(100);
        if c < 40 {
            let tag = *r.pick(&tagpool);
            let size = (*r.pick(&base) + r.below(3) * r.below(400)) as usize;
            let size = if r.pct(3) { *r.pick(&[usize::MAX, usize::MAX - 5, 1 << 62, usize::MAX / 2]) } else { size };
            let freed = if r.pct(60) { Some(Arc::new(AtomicU32::new(0))) } else { None };
            let reg = reg.as_mut().unwrap();
            let m = match &freed {
                Some(f) => {
                    let f = f.clone();
                    // Some callbacks own another region until they are called
                    let extra = if r.pct(20) { MemoryRegion::new(10) } else { None };
                    reg.alloc_with_free(size, tag, move || {
                        f.fetch_add(1, Ordering::SeqCst);
                        drop(extra);
                    })
                }
                None => reg.alloc(size, tag),
            };
            story.push(format!("alloc {} of {size} tag {tag:?} free {}", allocs.len(), freed.is_some()));
            let mut m = match m {
                Some(m) => m,
                None => {
                    if size < 1 << 40 {
                        OUT.violation("registry:none", format!("no region of {size} bytes"));
                        OUT.finish();
                    }
                    story.push("fails".into());
                    OUT.count("failed_allocs", 1);
                    continue;
                }
            };
            if size > 1 << 40 && (m.buffer_size() as usize) < size {
                OUT.violation("registry:size", format!("{} bytes instead of {size}", m.buffer_size()));
                OUT.finish();
            }
            if size > 1 << 40 {
                // Sparse, and rightly so; not filled here
                continue;
            }
            if (m.buffer_size() as usize) < size {
                OUT.violation("registry:size", format!("{} bytes instead of {size}", m.buffer_size()));
                OUT.finish();
            }
            let i = ino(&m);
            if let Some(o) = allocs.iter().position(|a| a.live() && a.ino == i) {
                OUT.violation("registry:aliased", format!("allocation {} is the memory of {o} that is in use, after: {}", allocs.len(), tail(&story)));
                OUT.finish();
            }
            if let Some(t) = tags.get(&i) {
                OUT.count("reused", 1);
                if t.as_deref() != tag {
                    OUT.violation("registry:tag", format!("region of tag {t:?} reused for {tag:?}, after: {}", tail(&story)));
                    OUT.finish();
                }
                for (k, a) in allocs.iter().enumerate() {
                    if a.ino == i && a.freed.as_ref().map_or(false, |f| f.load(Ordering::SeqCst) != 1) {
                        OUT.violation("registry:free missing", format!("allocation {k} was reused, after: {}", tail(&story)));
                        OUT.finish();
                    }
                }
            }
            tags.insert(i, tag.map(|t| t.to_owned()));
            let fill = r.u64();
            let len = m.buffer_size() as usize;
            match m.map(..) {
                Ok(b) => b.copy_from_slice(&Rng::new(fill).fill(len)),
                Err(e) => {
                    OUT.violation("registry:map", format!("{len} bytes: {e}"));
                    OUT.finish();
                }
            }
            OUT.count("allocs", 1);
            allocs.push(Alloc {
                tag: tag.map(|t| t.to_owned()),
                ino: i,
                fill,
                len,
                here: vec![m],
                there: vec![],
                freed,
            });
            callbacks(&allocs, false, false, &story);
            for a in allocs.iter_mut().filter(|a| a.live()) {
                content(a, &story);
            }
            continue;
        }
        let live: Vec<usize> = (0..allocs.len()).filter(|i| allocs[*i].live()).collect();
        if c < 50 {
            // Clone
            if let Some(i) = live.iter().find(|i| !allocs[**i].here.is_empty()).copied() {
                let a = &mut allocs[i];
                let m = if r.pct(50) {
                    a.here[0].clone()
                } else {
                    a.here[0].object().clone().map(MemoryRegion::from_object)
                };
                a.here.push(m.unwrap());
                story.push(format!("clone {i}"));
            }
        } else if c < 72 {
            if !live.is_empty() {
                let i = *r.pick(&live);
                let a = &mut allocs[i];
                if !a.here.is_empty() && (a.there.is_empty() || r.pct(50)) {
                    a.here.swap_remove(0);
                    story.push(format!("drop {i} here"));
                } else {
                    let (h, id) = a.there.swap_remove(0);
                    h.get(Cmd::Ext("mr.drop".into(), json!({"id": id})));
                    story.push(format!("drop {i} there"));
                }
            }
        } else if c < 82 {
            // To the peer
            if let Some(i) = live.iter().rev().find(|i| !allocs[**i].here.is_empty()).copied() {
                let m = allocs[i].here.pop().unwrap();
                let mut msg = Message::new(
                    Selector::unicast(format!("@{its}").as_str()),
                    crate::msg::SBox::of(&crate::msg::In::V(crate::msg::V::new(0, 0, 0, 3))),
                );
                msg.memory_regions.push(m);
                tx.send(msg).unwrap_or_else(|e| {
                    OUT.violation("attach:send", format!("{e}"));
                });
                // Nobody but the message holds it now, allocations must not get it
                if r.pct(50) {
                    let reg = reg.as_mut().unwrap();
                    let t = allocs[i].tag.clone();
                    let got = reg.alloc(allocs[i].len.min(9000), t.as_deref());
                    if got.as_ref().map_or(false, |g| ino(g) == allocs[i].ino) {
                        OUT.violation("registry:aliased", format!("allocation {i} is in a message, after: {}", tail(&story)));
                        OUT.finish();
                    }
                    if let Some(g) = got {
                        tags.insert(ino(&g), t);
                    }
                    callbacks(
                        &allocs.iter().map(|a| Alloc { tag: None, ino: a.ino, fill: 0, len: 0, here: vec![], there: if a.ino == allocs[i].ino { vec![(host.clone(), 0)] } else { vec![] }, freed: if a.ino == allocs[i].ino && !std::ptr::eq(a, &allocs[i]) { None } else { a.freed.clone() } }).filter(|a| a.ino == allocs[i].ino).collect::<Vec<_>>(),
                        false,
                        false,
                        &story,
                    );
                }
                let v = peer.recv(its, 10_000, hold);
                if v["regions"] != 1 {
                    OUT.violation("attach:lost", format!("{v}"));
                    OUT.finish();
                }
                // The controller lets go of a message before it takes the next one
                let msg = Message::new(
                    Selector::unicast(format!("@{its}").as_str()),
                    crate::msg::SBox::of(&crate::msg::In::V(crate::msg::V::new(0, 1, 0, 3))),
                );
                tx.send(msg).unwrap_or_else(|e| {
                    OUT.violation("attach:send", format!("{e}"));
                });
                if !peer.recv(its, 10_000, hold + 1)["err"].is_null() {
                    OUT.violation("attach:lost", "a message without attachments");
                    OUT.finish();
                }
                allocs[i].there.push((peer.clone(), hold));
                hold += 2;
                story.push(format!("{i} to the peer"));
                OUT.count("shared", 1);
            }
        } else if c < 90 {
            let ns = r.pick(&[100_000_000u64, 1_000_000_000, 4_000_000_000, 6_000_000_000]);
            crate::shim::clock_add(*ns);
            story.push(format!("{} ms pass", ns / 1_000_000));
        } else if c < 98 {
            // The message that brought it is consumed: the count is exact
            reg.as_mut().unwrap().maintain();
            story.push("maintain".into());
            callbacks(&allocs, false, true, &story);
            OUT.count("maintained", 1);
        } else if r.pct(40) {
            drop(reg.take());
            story.push("registry dropped".into());
            callbacks(&allocs, true, true, &story);
            for a in allocs.iter_mut() {
                content(a, &story);
                // Settled
                a.freed = None;
            }
            reg = Some(MemoryRegistry::default());
            OUT.count("registries_dropped", 1);
        }
        callbacks(&allocs, false, false, &story);
    }
    for a in allocs.iter_mut() {
        content(a, &story);
    }
    // What nobody has used for a while is given back, as far as the clock can be moved
    if r.pct(60) && crate::shim::loaded() {
        crate::shim::clock_add(60_000_000_000);
        reg.as_mut().unwrap().maintain();
        story.push("maintain after a minute".into());
        callbacks(&allocs, false, true, &story);
        // A callback may own another region
        let pending = allocs.iter().filter(|a| a.live() && a.freed.as_ref().map_or(false, |f| f.load(Ordering::SeqCst) == 0)).count();
        let used: BTreeSet<u64> = allocs.iter().filter(|a| a.live()).map(|a| a.ino).collect();
        let mut unused = BTreeSet::new();
        for f in std::fs::read_dir("/proc/self/fd").unwrap().flatten() {
            if std::fs::read_link(f.path()).map_or(false, |l| l.to_string_lossy().starts_with("/memfd:ipmb")) {
                if let Ok(m) = std::fs::metadata(f.path()) {
                    if !used.contains(&m.ino()) {
                        unused.insert(m.ino());
                    }
                }
            }
        }
        if unused.len() > pending {
            OUT.violation(
                "registry:kept",
                format!("{} regions that nobody uses are still there a minute later, after: {}", unused.len() - pending, tail(&story)),
            );
            OUT.finish();
        }
        OUT.count("given_back", 1);
    }
    drop(reg);
    story.push("registry dropped at the end".into());
    callbacks(&allocs, true, true, &story);
    OUT.distinct(format!("{:x}", hash(story.join("").as_bytes())));
    OUT.sample(json!(story.iter().take(25).collect::<Vec<_>>()));
    w.check_badclose();
}

/// Allocations at full speed while receivers hold what was sent.
pub fn registry_stream(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 10, 1]);
    if r.pct(50) {
        crate::shim::set_delay(10, 300, seed);
    }
    let peers: Vec<Host> = (0..r.range(1, 3)).map(|_| w.peer()).collect();
    let me = w.here();
    let mut order: Vec<Host> = peers.clone();
    order.push(me);
    r.shuffle(&mut order);
    let mut at = vec![];
    for h in &order {
        let ep = w.join(h, &strs(&["all"]), |j| j.auto = false);
        at.push((ep, h.clone()));
    }
    let my = at.iter().find(|x| x.1.name() == "main").unwrap().0;
    let tx = w.here.ep(my).tx.lock().unwrap().clone().unwrap();
    let n = r.range(50, 300);
    let hs: Vec<_> = at
        .iter()
        .map(|(ep, h)| {
            let (ep, h, s) = (*ep, h.clone(), r.u64());
            std::thread::spawn(move || {
                (
                    h.name(),
                    h.get(Cmd::Ext("reg.consume".into(), json!({"ep": ep, "n": n, "seed": s}))),
                )
            })
        })
        .collect();
    let mut reg = MemoryRegistry::default();
    let freed = Arc::new(AtomicU32::new(0));
    let mut inos = BTreeMap::new();
    for seq in 1..=n as u32 {
        let size = *r.pick(&[100usize, 110, 150, 5000, 20_000]);
        let tag = *r.pick(&[None, Some("x")]);
        let f = freed.clone();
        let m = if r.pct(50) {
            reg.alloc_with_free(size, tag, move || {
                f.fetch_add(1, Ordering::SeqCst);
            })
        } else {
            freed.fetch_add(1, Ordering::SeqCst);
            reg.alloc(size, tag)
        };
        let mut m = match m {
            Some(m) => m,
            None => {
                OUT.violation("registry:none", format!("no region of {size} bytes"));
                OUT.finish();
            }
        };
        *inos.entry(ino(&m)).or_insert(0) += 1;
        let len = m.buffer_size() as usize;
        if len < size {
            OUT.violation("registry:size", format!("{len} instead of {size}"));
        }
        m.map(..).unwrap().copy_from_slice(&Rng::new(seq as u64).fill(len));
        let mut msg = Message::new(
            Selector::multicast("all"),
            crate::msg::SBox::of(&crate::msg::In::V(crate::msg::V::new(1, seq, 0, 3))),
        );
        msg.memory_regions.push(m);
        if let Err(e) = tx.send(msg) {
            OUT.violation("attach:send", format!("{e}"));
            OUT.finish();
        }
        if r.pct(20) {
            crate::shim::clock_add(r.below(3_000_000_000));
        }
        if r.pct(10) {
            reg.maintain();
        }
        if r.pct(20) {
            sleep_us(r.below(500));
        }
    }
    for h in hs {
        let (name, v) = must_return("a consumer of regions", 60, || h.join().unwrap());
        for b in v["bad"].as_array().unwrap() {
            OUT.violation("registry:overwritten", format!("{name}: message {}: {}", b[0], b[1]));
        }
        if v["count"] != n {
            OUT.violation("attach:lost", format!("{name} received {} of {n}, then {}", v["count"], v["failed"]));
        }
    }
    drop(reg);
    let f = freed.load(Ordering::SeqCst);
    if f as u64 != n {
        OUT.violation("registry:free count", format!("{f} callbacks for {n} allocations"));
    }
    OUT.count("allocs", n);
    OUT.count("shared", n * at.len() as u64);
    OUT.count("reused", n - inos.len() as u64);
    OUT.distinct(format!("{:x}", hash(format!("{inos:?}").as_bytes())));
}
