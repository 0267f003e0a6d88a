//! C21: programs started by a participant, at any moment.
use crate::model::*;
use crate::node::*;
use crate::util::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::io::Read;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};

static INHERITED: Mutex<Vec<String>> = Mutex::new(vec![]);

/// What this process was itself born with, it passes on.
pub fn remember() {
    *INHERITED.lock().unwrap() = open_now();
}

fn open_now() -> Vec<String> {
    let mut v = vec![];
    for e in std::fs::read_dir("/proc/self/fd").unwrap().flatten() {
        let n: i32 = e.file_name().to_string_lossy().parse().unwrap();
        if let Ok(t) = std::fs::read_link(e.path()) {
            let t = t.to_string_lossy().into_owned();
            if n > 2 && !t.starts_with("/proc/") {
                v.push(format!("{n}:{t}"));
            }
        }
    }
    v
}

/// `vh fds`: the descriptors a program is born with, apart from the first three.
pub fn fds_main() -> ! {
    println!("{}", serde_json::to_string(&open_now()).unwrap());
    std::process::exit(0)
}

fn command(arg: &str) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg(arg).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    c.env_remove("VH_KILL_AT").env_remove("VH_DELAY");
    c
}

fn born_with() -> Option<Vec<String>> {
    let mut c = command("fds").spawn().ok()?;
    let mut s = String::new();
    c.stdout.take()?.read_to_string(&mut s).ok()?;
    let _ = c.wait();
    serde_json::from_str(s.trim()).ok()
}

#[derive(Default)]
struct Children {
    alive: Vec<Child>,
    on: Option<(Arc<AtomicBool>, std::thread::JoinHandle<(u64, Vec<String>)>)>,
}

pub fn ext(node: &Arc<Node>, name: &str, v: Value) -> Value {
    let cs = {
        let mut e = node.ext.lock().unwrap();
        e.entry("children".into())
            .or_insert_with(|| Box::new(Arc::new(Mutex::new(Children::default()))))
            .downcast_ref::<Arc<Mutex<Children>>>()
            .unwrap()
            .clone()
    };
    match name {
        "child.fds" => match born_with() {
            Some(v) => json!(v),
            None => harness_error("child"),
        },
        // One that lives on: it ends with the scenario (the end of the harness' process group)
        "child.stay" => {
            let mut c = Command::new("/bin/sleep");
            c.arg("300").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).env_remove("LD_PRELOAD");
            match c.spawn() {
                Ok(c) => {
                    let pid = c.id();
                    cs.lock().unwrap().alive.push(c);
                    json!({ "pid": pid })
                }
                Err(e) => harness_error(format!("sleep: {e}")),
            }
        }
        // A copy of this process that goes on to do nothing, for a while
        "child.fork" => {
            let ms = v["ms"].as_u64().unwrap();
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                unsafe {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    let t = libc::timespec { tv_sec: (ms / 1000) as _, tv_nsec: (ms % 1000 * 1_000_000) as _ };
                    libc::syscall(libc::SYS_nanosleep, &t, std::ptr::null_mut::<libc::timespec>());
                    libc::_exit(0);
                }
            }
            if pid == -1 {
                harness_error("fork");
            }
            json!({ "pid": pid })
        }
        "child.reap" => {
            let pid = v["pid"].as_i64().unwrap() as i32;
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, std::ptr::null_mut(), 0);
            }
            json!({})
        }
        // One after the other, until told to stop
        "child.storm" => {
            let on = Arc::new(AtomicBool::new(true));
            let f = on.clone();
            let gap = v["gap_us"].as_u64().unwrap_or(0);
            let t = std::thread::spawn(move || {
                let mut bad = vec![];
                let mut n = 0;
                while f.load(Ordering::SeqCst) {
                    if let Some(v) = born_with() {
                        n += 1;
                        bad.extend(v.into_iter().filter(|x| !bad.contains(x)).collect::<Vec<_>>());
                    }
                    sleep_us(gap);
                }
                bad.truncate(40);
                (n, bad)
            });
            cs.lock().unwrap().on = Some((on, t));
            json!({})
        }
        "child.calm" => {
            let x = cs.lock().unwrap().on.take();
            match x {
                Some((on, t)) => {
                    on.store(false, Ordering::SeqCst);
                    let (n, bad) = t.join().unwrap();
                    json!({"n": n, "bad": bad})
                }
                None => json!({"n": 0, "bad": []}),
            }
        }
        _ => harness_error(name),
    }
}

fn call(h: &Host, name: &str, v: Value) -> Value {
    h.get(Cmd::Ext(name.into(), v))
}

fn judge(h: &Host, when: &str, bad: &Value) {
    let known = INHERITED.lock().unwrap().clone();
    let bad: Vec<&str> = bad.as_array().unwrap().iter().map(|b| b.as_str().unwrap()).filter(|b| !known.iter().any(|k| k == b)).collect();
    if !bad.is_empty() {
        OUT.violation("child:inherited descriptors", format!("a program started by {} {when} was born with {bad:?}", h.name()));
    }
}

/// Everything a participant does, with programs started in between and meanwhile.
pub fn children(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 21]);
    for _ in 0..r.range(1, 2) {
        let env = if r.pct(50) {
            vec![("VH_DELAY", format!("20,400,{}", r.u64() >> 1))]
        } else {
            vec![]
        };
        w.peer_env(&env);
    }
    if r.pct(50) {
        crate::shim::set_delay(20, 400, seed);
    }
    let mut hosts = w.hosts();
    r.shuffle(&mut hosts);
    for h in &hosts {
        judge(h, "before anything", &call(h, "child.fds", json!({})));
        if r.pct(80) {
            call(h, "child.storm", json!({"gap_us": r.below(2000)}));
        }
    }
    let mut eps: Vec<(u32, Host)> = vec![];
    let mut id = 1000u32;
    let (sid, mut seq) = (w.sid(), 0);
    let mut story = String::new();
    for step in 0..r.range(10, 25) {
        let h = r.pick(&hosts).clone();
        let mine: Vec<u32> = eps.iter().filter(|e| e.1.pid() == h.pid()).map(|e| e.0).collect();
        let act = if eps.len() < 2 { 0 } else { r.below(9) };
        story.push_str(&format!("{act}"));
        match act {
            0 | 1 => {
                let ep = w.join(&h, &strs(&["v"]), |j| {
                    j.aff = true;
                    j.auto = false;
                });
                eps.push((ep, h.clone()));
            }
            2 if eps.len() > 3 && !mine.is_empty() => {
                let ep = *r.pick(&mine);
                h.get(Cmd::Drop(ep));
                eps.retain(|e| e.0 != ep);
            }
            3 => {
                // A join that is refused
                let ep = w.ep(&h);
                let j = JoinSpec::new(ep, &w.ident, &["x"]).token("wrong").aff(false).manual();
                h.join(j);
            }
            4 => {
                call(&h, "mr.new", json!({"id": id, "size": 5000}));
                call(&h, "mr.clone", json!({"id": id, "to": id + 1}));
                call(&h, "mr.map", json!({"id": id, "lo": ["u"], "hi": ["u"], "write": 1}));
                id += 2;
            }
            5 => {
                judge(&h, &format!("at step {step} of {story}"), &call(&h, "child.fds", json!({})));
                OUT.count("children_asked", 1);
            }
            _ if !mine.is_empty() => {
                // A message with everything, received by all
                let from = *r.pick(&mine);
                let mut s = SendSpec::new(from, sid, seq, Op::T);
                seq += 1;
                for _ in 0..r.range(0, 4) {
                    if r.pct(60) {
                        let kind = *r.pick(&["pipe", "sock", "memfd", "eventfd", "file"]);
                        call(&h, "obj.make", json!({"id": id, "kind": kind, "salt": step}));
                        if r.pct(30) {
                            call(&h, "obj.dup", json!({"id": id, "to": id + 1}));
                        }
                        s.objects.push(id);
                    } else {
                        call(&h, "mr.new", json!({"id": id, "size": 100}));
                        s.regions.push(id);
                    }
                    id += 2;
                }
                let n = s.objects.len() + s.regions.len();
                h.send(s);
                for (ep, eh) in &eps {
                    let v = eh.get(Cmd::Recv { ep: *ep, timeout_ns: Some(8_000_000_000), hold: id });
                    id += 20;
                    if !v["err"].is_null() {
                        OUT.violation("child:lost", format!("message {seq} at endpoint {ep}: {v}"));
                        OUT.finish();
                    }
                    OUT.count("attachments_held", n as u64);
                    if r.pct(30) {
                        judge(eh, "with attachments", &call(eh, "child.fds", json!({})));
                        OUT.count("children_asked", 1);
                    }
                }
            }
            _ => {}
        }
    }
    for h in &hosts {
        let v = call(h, "child.calm", json!({}));
        judge(h, "meanwhile", &v["bad"]);
        OUT.count("children_meanwhile", v["n"].as_u64().unwrap());
        judge(h, "at last", &call(h, "child.fds", json!({})));
        OUT.count("children_asked", 1);
    }
    w.check_badclose();
    OUT.distinct(story.clone());
    OUT.sample(json!({"seed": seed, "story": story}));
}

/// A program that outlives its parent, or the endpoints it had.
pub fn outlived(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 211]);
    let p = w.peer();
    let q = w.peer();
    let here = w.here();
    let first = if r.pct(50) { p.clone() } else { here.clone() };
    let early = r.pct(50);
    if early {
        call(&p, "child.stay", json!({}));
    }
    let mut eps = vec![];
    let order = if first.pid() == p.pid() { vec![p.clone(), here.clone(), q.clone()] } else { vec![here.clone(), p.clone(), q.clone()] };
    for h in &order {
        let manual = h.pid() == p.pid();
        let ep = w.join(h, &strs(&["v"]), |j| {
            j.aff = h.pid() != q.pid();
            j.auto = !manual;
            j.rx_timeout_ms = Some(20);
        });
        eps.push((ep, h.clone()));
    }
    let pe = eps.iter().find(|e| e.1.pid() == p.pid()).unwrap().0;
    let qe = eps.iter().find(|e| e.1.pid() == q.pid()).unwrap().0;
    let he = eps.iter().find(|e| e.1.pid() == here.pid()).unwrap().0;
    // It has received a pipe's end
    let pipe = 77;
    call(&here, "obj.make", json!({"id": pipe, "kind": "pipe"}));
    let mut s = SendSpec::new(he, 900, 0, Op::leaf(&format!("@{pe}")));
    s.objects.push(pipe);
    here.send(s);
    let v = p.recv(pe, 8000, 500);
    if v["objects"] != 1 {
        OUT.violation("child:lost", format!("{v}"));
        OUT.finish();
    }
    if !early || r.pct(50) {
        call(&p, "child.stay", json!({}));
    }
    let kill = r.pct(60);
    let b = now_ns();
    if kill {
        p.peer().kill();
    } else {
        call(&p, "obj.drop", json!({"ids": [500]}));
        p.get(Cmd::Drop(pe));
    }
    w.evs.push(Ev::C { ep: pe, b, e: now_ns() });
    // The pipe has no other end any more
    let start = now_ns();
    reset_overshoot();
    loop {
        let open = call(&here, "obj.open", json!({"ids": [pipe]}));
        if open.as_array().unwrap().is_empty() {
            break;
        }
        if now_ns() - start > 5_000_000_000 {
            if worst_overshoot_ms() < 1500 {
                OUT.violation("child:holds an attachment", format!("a pipe is still open after its receiver has gone (killed: {kill}) and left a program running"));
            }
            break;
        }
        sleep_ms(2);
    }
    // The others are as well off as without the program
    let mut got = (false, false);
    let mut seq = 1;
    let start = now_ns();
    let mut late = vec![];
    while got != (true, true) {
        for (h, ep) in [(&here, he), (&q, qe)] {
            let (h, s) = (h.clone(), SendSpec::new(ep, 900 + ep, seq, Op::leaf("v")));
            late.push(std::thread::spawn(move || h.call(Cmd::Send(s)).is_ok()));
        }
        seq += 1;
        let until = now_ns() + 50_000_000;
        while now_ns() < until {
            w.poll();
            for e in &w.evs {
                if let Ev::R { ep, sid, .. } = e {
                    if *ep == he && *sid == 900 + qe {
                        got.0 = true;
                    }
                    if *ep == qe && *sid == 900 + he {
                        got.1 = true;
                    }
                }
            }
            if got == (true, true) {
                break;
            }
            sleep_ms(1);
        }
        if now_ns() - start > 30_000_000_000 {
            if worst_overshoot_ms() < 1500 {
                OUT.violation("child:keeps the bus from working", format!("30 s after the death (killed: {kill}) of a participant that left a program running, {got:?}"));
            } else {
                OUT.inconclusive("machine stalled");
            }
            OUT.finish();
        }
    }
    OUT.count("outlived", 1);
    OUT.max("recovered_after_ms", (now_ns() - start) / 1_000_000);
    let _ = BTreeSet::<u32>::new();
    for t in late {
        let _ = t.join();
    }
    // And nothing is routed to the one that has gone
    let lost = w.burst(he, 0, vec![Op::T]);
    let b = w.bursts(vec![(here.clone(), lost)]);
    w.settle(&b, &[he, qe].into_iter().collect());
    let _ = Rules::default();
    OUT.distinct(format!("{kill} {early} {} {seq}", first.name()));
}

/// An endpoint leaves while its process starts programs, or has forked: what is sent afterwards goes
/// to the ones that remain, and whoever is still sending to it goes on.
pub fn left_behind(seed: u64) {
    let mut w = World::new(seed);
    let mut r = Rng::of(&[seed, 212]);
    for _ in 0..r.range(1, 2) {
        w.peer();
    }
    let hosts = w.hosts();
    let h = r.pick(&hosts).clone();
    let ctl = r.pick(&hosts).clone();
    let sender = {
        let me = w.spec(&ctl, &strs(&["s"]), |j| j.aff = true);
        let ep = me.ep;
        ctl.must_join(me);
        ep
    };
    let storm = r.pct(50);
    if storm {
        call(&h, "child.storm", json!({"gap_us": 0}));
    }
    let sid = w.sid();
    let mut seq = 0;
    let mut forks: Vec<(Host, Value)> = vec![];
    let n = if storm { 60 } else { 25 };
    for _ in 0..n {
        let only_rx = r.pct(30);
        let gone = w.join(&h, &strs(&["v"]), |j| {
            j.aff = false;
            j.auto = false;
        });
        let kh = r.pick(&hosts).clone();
        let keep = w.join(&kh, &strs(&["v"]), |j| {
            j.aff = false;
            j.auto = false;
        });
        if !storm && (forks.is_empty() || r.pct(80)) {
            OUT.count("left_with_a_fork", 1);
            let fh = r.pick(&[&h, &h, &ctl, &kh]).clone();
            forks.push((fh.clone(), call(&fh, "child.fork", json!({"ms": 100_000}))));
        }
        sleep_us(r.below(1500));
        h.get(if only_rx { Cmd::CloseRx(gone) } else { Cmd::Drop(gone) });
        let m = r.range(1, 3) as u32;
        for _ in 0..m {
            let mut s = SendSpec::new(sender, sid, seq, Op::leaf("v"));
            s.uni = true;
            ctl.send(s);
            seq += 1;
        }
        for i in 0..m {
            let v = kh.get(Cmd::Recv { ep: keep, timeout_ns: Some(8_000_000_000), hold: 0 });
            if !v["err"].is_null() || v["seq"] != seq - m + i {
                if worst_overshoot_ms() < 1500 {
                    OUT.violation(
                        "child:swallowed",
                        format!("unicast {} sent after endpoint {gone} had left {} has not reached endpoint {keep}: {v}", seq - m + i, if storm { "while its process started programs" } else { "a process that had forked" }),
                    );
                } else {
                    OUT.inconclusive("machine stalled");
                }
                OUT.finish();
            }
        }
        OUT.count("left_behind", 1);
        if forks.len() > 6 || !forks.is_empty() && r.pct(60) {
            let (fh, f) = forks.swap_remove(r.below(forks.len() as u64) as usize);
            call(&fh, "child.reap", f);
        }
        if only_rx {
            h.get(Cmd::Drop(gone));
        }
        kh.get(Cmd::Drop(keep));
    }
    for (fh, f) in forks {
        call(&fh, "child.reap", f);
    }
    if storm {
        let v = call(&h, "child.calm", json!({}));
        OUT.count("children_meanwhile", v["n"].as_u64().unwrap());
    }
    w.check_badclose();
    OUT.distinct(format!("{storm} {} {}", h.name(), ctl.name()));
}
