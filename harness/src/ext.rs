//! Commands of single scenarios, run inside the node they are sent to.
use crate::node::*;
use crate::util::*;
use ipmb::{MemoryRegion, Object};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::ops::Bound;
use std::os::fd::{AsRawFd, FromRawFd, IntoRawFd, OwnedFd};
use std::sync::Arc;

pub fn run(node: &Arc<Node>, name: &str, v: Value) -> Value {
    match name.split('.').next().unwrap() {
        "pay" => crate::scen_data::pay_ext(node, name, v),
        "obj" => obj(node, name, v),
        "mr" => mr(node, name, v),
        "reg" => crate::scen_registry::ext(node, name, v),
        "tx" => crate::scen_handles::tx_churn(node, v),
        "flood" => crate::scen_fair::ext(node, name, v),
        "pass" => crate::scen_pass::ext(node, name, v),
        "heap" => {
            let m = unsafe { libc::mallinfo2() };
            json!({"used": m.uordblks + m.hblkhd})
        }
        "child" => crate::scen_child::ext(node, name, v),
        "kill_at" => {
            crate::shim::set_kill(v["call"].as_str().unwrap(), v["n"].as_i64().unwrap(), v["after"] == true);
            json!({})
        }
        // The orderly end of a process, nothing is dropped
        "exit" => std::process::exit(0),
        _ => harness_error(format!("unknown command {name}")),
    }
}

fn id(v: &Value, k: &str) -> u32 {
    v[k].as_u64()
        .unwrap_or_else(|| harness_error(format!("{k} of {v}"))) as u32
}

type Keep = HashMap<u32, OwnedFd>;

fn keep<T>(node: &Node, f: impl FnOnce(&mut Keep) -> T) -> T {
    let mut e = node.ext.lock().unwrap();
    let b = e
        .entry("keep".into())
        .or_insert_with(|| Box::new(Keep::new()));
    f(b.downcast_mut::<Keep>().unwrap())
}

/// What identifies the open kernel object behind a descriptor.
fn stat(fd: i32) -> Value {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut st) != 0 {
            return json!({"bad": std::io::Error::last_os_error().to_string()});
        }
        let info = std::fs::read_to_string(format!("/proc/self/fdinfo/{fd}")).unwrap_or_default();
        let counter = info
            .lines()
            .find(|l| l.starts_with("eventfd-count"))
            .map(|l| l.to_owned());
        json!({
            "dev": st.st_dev, "ino": st.st_ino, "mode": st.st_mode, "size": st.st_size,
            "flags": libc::fcntl(fd, libc::F_GETFL),
            "pos": libc::lseek(fd, 0, libc::SEEK_CUR),
            "counter": counter,
        })
    }
}

fn own(fd: i32) -> OwnedFd {
    if fd < 0 {
        harness_error(format!("fd: {}", std::io::Error::last_os_error()));
    }
    unsafe { OwnedFd::from_raw_fd(fd) }
}

fn obj(node: &Arc<Node>, name: &str, v: Value) -> Value {
    match name {
        // Creates a kernel object; what the harness keeps of it is `keep`
        "obj.make" => unsafe {
            let i = id(&v, "id");
            let salt = v["salt"].as_u64().unwrap_or(0);
            let (fd, kept) = match v["kind"].as_str().unwrap() {
                "pipe" | "pipe_in" => {
                    let mut p = [0; 2];
                    if libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
                        harness_error("pipe2");
                    }
                    if v["kind"] == "pipe" {
                        (own(p[1]), own(p[0]))
                    } else {
                        (own(p[0]), own(p[1]))
                    }
                }
                "sock" => {
                    let mut p = [0; 2];
                    if libc::socketpair(
                        libc::AF_UNIX,
                        libc::SOCK_STREAM | libc::SOCK_CLOEXEC,
                        0,
                        p.as_mut_ptr(),
                    ) != 0
                    {
                        harness_error("socketpair");
                    }
                    (own(p[0]), own(p[1]))
                }
                "memfd" => {
                    let f = own(libc::memfd_create(c"vh".as_ptr(), libc::MFD_CLOEXEC));
                    libc::ftruncate(f.as_raw_fd(), 100 + salt as i64);
                    libc::lseek(f.as_raw_fd(), 7 + (salt % 50) as i64, libc::SEEK_SET);
                    let k = f.try_clone().unwrap();
                    (f, k)
                }
                "file" => {
                    let d = std::ffi::CString::new(std::env::var("VH_DIR").unwrap()).unwrap();
                    let fl = [0, libc::O_APPEND, libc::O_NONBLOCK][(salt % 3) as usize];
                    let f = own(libc::open(
                        d.as_ptr(),
                        libc::O_TMPFILE | libc::O_RDWR | libc::O_CLOEXEC | fl,
                        0o600,
                    ));
                    libc::ftruncate(f.as_raw_fd(), 100 + salt as i64);
                    libc::lseek(f.as_raw_fd(), 3 + (salt % 90) as i64, libc::SEEK_SET);
                    let k = f.try_clone().unwrap();
                    (f, k)
                }
                "eventfd" => {
                    let f = own(libc::eventfd((1000 + salt) as u32, libc::EFD_CLOEXEC));
                    let k = f.try_clone().unwrap();
                    (f, k)
                }
                "dir" => {
                    let f = own(libc::open(c"/".as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC));
                    let k = f.try_clone().unwrap();
                    (f, k)
                }
                k => harness_error(k),
            };
            let s = stat(fd.as_raw_fd());
            node.held
                .lock()
                .unwrap()
                .objects
                .insert(i, Object::from_raw(fd.into_raw_fd()));
            keep(node, |m| m.insert(i, kept));
            s
        },
        // Another handle of a held object
        "obj.dup" => {
            let mut h = node.held.lock().unwrap();
            let o = h.objects[&id(&v, "id")].clone();
            match o {
                Ok(o) => {
                    h.objects.insert(id(&v, "to"), o);
                    json!({})
                }
                Err(e) => json!({ "err": e.to_string() }),
            }
        }
        "obj.stat" => {
            let h = node.held.lock().unwrap();
            let l: Vec<Value> = v["ids"]
                .as_array()
                .unwrap()
                .iter()
                .map(|i| match h.objects.get(&(i.as_u64().unwrap() as u32)) {
                    Some(o) => {
                        let mut s = stat(o.as_raw());
                        s["fd"] = o.as_raw().into();
                        s["cloexec"] = (unsafe { libc::fcntl(o.as_raw(), libc::F_GETFD) }).into();
                        s
                    }
                    None => Value::Null,
                })
                .collect();
            json!(l)
        }
        // Moves the shared offset through a held object
        "obj.seek" => {
            let h = node.held.lock().unwrap();
            let r = unsafe {
                libc::lseek(
                    h.objects[&id(&v, "id")].as_raw(),
                    v["pos"].as_i64().unwrap(),
                    libc::SEEK_SET,
                )
            };
            json!(r)
        }
        // Bytes through a held pipe or socket, read at what was kept
        "obj.write" => {
            let h = node.held.lock().unwrap();
            let d = v["data"].as_str().unwrap();
            let r = unsafe {
                libc::write(
                    h.objects[&id(&v, "id")].as_raw(),
                    d.as_ptr() as _,
                    d.len(),
                )
            };
            json!(r)
        }
        "obj.keptread" => keep(node, |m| {
            let fd = m[&id(&v, "id")].as_raw_fd();
            let mut b = [0u8; 256];
            unsafe {
                let mut p = libc::pollfd {
                    fd,
                    events: libc::POLLIN,
                    revents: 0,
                };
                libc::poll(&mut p, 1, 2000);
                let n = libc::read(fd, b.as_mut_ptr() as _, 256);
                json!(String::from_utf8_lossy(&b[..n.max(0) as usize]))
            }
        }),
        "obj.keptpos" => keep(node, |m| {
            let fd = m[&id(&v, "id")].as_raw_fd();
            json!(unsafe { libc::lseek(fd, 0, libc::SEEK_CUR) })
        }),
        "obj.drop" => {
            let gone: Vec<_> = {
                let mut h = node.held.lock().unwrap();
                v["ids"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|i| h.objects.remove(&(i.as_u64().unwrap() as u32)))
                    .collect()
            };
            drop(gone);
            json!({})
        }
        // Which of the kept ends still have a counterpart somewhere
        "obj.open" => keep(node, |m| {
            let l: Vec<u32> = v["ids"]
                .as_array()
                .unwrap()
                .iter()
                .map(|i| i.as_u64().unwrap() as u32)
                .filter(|i| {
                    let mut p = libc::pollfd {
                        fd: m[i].as_raw_fd(),
                        events: 0,
                        revents: 0,
                    };
                    unsafe { libc::poll(&mut p, 1, 0) };
                    p.revents & (libc::POLLHUP | libc::POLLERR) == 0
                })
                .collect();
            json!(l)
        }),
        "obj.forget" => keep(node, |m| {
            for i in v["ids"].as_array().unwrap() {
                m.remove(&(i.as_u64().unwrap() as u32));
            }
            json!({})
        }),
        _ => harness_error(name),
    }
}

pub fn bound(v: &Value) -> Bound<usize> {
    let n = v[1].as_u64().unwrap_or(0) as usize;
    match v[0].as_str().unwrap() {
        "i" => Bound::Included(n),
        "e" => Bound::Excluded(n),
        _ => Bound::Unbounded,
    }
}

/// Calls map in the syntactic form that fits the bounds.
pub fn map_as<'a>(
    r: &'a mut MemoryRegion,
    lo: Bound<usize>,
    hi: Bound<usize>,
    sugar: bool,
) -> Result<&'a mut [u8], ipmb::Error> {
    use Bound::*;
    match (lo, hi) {
        (Unbounded, Unbounded) if sugar => r.map(..),
        (Included(a), Unbounded) if sugar => r.map(a..),
        (Included(a), Excluded(b)) if sugar => r.map(a..b),
        (Included(a), Included(b)) if sugar => r.map(a..=b),
        (Unbounded, Excluded(b)) if sugar => r.map(..b),
        (Unbounded, Included(b)) if sugar => r.map(..=b),
        x => r.map(x),
    }
}

/// Handles of one region, cloned and dropped by several threads at once; `keep` of them stay.
fn mr_storm(node: &Arc<Node>, v: Value) -> Value {
    let (n, threads, keep, to) = (id(&v, "n"), id(&v, "threads"), id(&v, "keep"), id(&v, "to"));
    let mut firsts: Vec<MemoryRegion> = {
        let h = node.held.lock().unwrap();
        (0..threads).map(|_| h.regions[&id(&v, "id")].clone().unwrap()).collect()
    };
    let gate = std::sync::Barrier::new(threads as usize);
    let seed = v["seed"].as_u64().unwrap_or(0);
    let kept: Vec<MemoryRegion> = std::thread::scope(|sc| {
        let gate = &gate;
        let hs: Vec<_> = firsts
            .drain(..)
            .enumerate()
            .map(|(t, first)| {
                sc.spawn(move || {
                    let mut r = Rng::of(&[seed, t as u64]);
                    let mut own = vec![first];
                    gate.wait();
                    for _ in 0..n {
                        if own.len() < 8 && r.pct(55) {
                            let i = r.below(own.len() as u64) as usize;
                            own.push(if r.pct(50) {
                                own[i].clone().unwrap()
                            } else {
                                own[i].object().clone().map(MemoryRegion::from_object).unwrap()
                            });
                        } else if own.len() > 1 {
                            let i = r.below(own.len() as u64) as usize;
                            drop(own.swap_remove(i));
                        }
                    }
                    while own.len() > 1 {
                        own.pop();
                    }
                    if (t as u32) < keep {
                        own
                    } else {
                        vec![]
                    }
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    let mut h = node.held.lock().unwrap();
    for (i, r) in kept.into_iter().enumerate() {
        h.regions.insert(to + i as u32, r);
    }
    json!({})
}

fn mr(node: &Arc<Node>, name: &str, v: Value) -> Value {
    if name == "mr.storm" {
        return mr_storm(node, v);
    }
    let mut h = node.held.lock().unwrap();
    match name {
        "mr.new" => match MemoryRegion::new(v["size"].as_u64().unwrap() as usize) {
            Some(r) => {
                let out = json!({"count": r.ref_count(), "size": r.buffer_size()});
                h.regions.insert(id(&v, "id"), r);
                out
            }
            None => json!({"err": "none"}),
        },
        "mr.clone" => {
            let r = &h.regions[&id(&v, "id")];
            let c = if v["obj"] == true {
                r.object().clone().map(MemoryRegion::from_object)
            } else {
                r.clone()
            };
            match c {
                Ok(c) => {
                    h.regions.insert(id(&v, "to"), c);
                    json!({})
                }
                Err(e) => json!({ "err": e.to_string() }),
            }
        }
        "mr.many" => {
            for k in 0..v["n"].as_u64().unwrap() as u32 {
                match h.regions[&id(&v, "id")].clone() {
                    Ok(c) => h.regions.insert(id(&v, "to") + k, c),
                    Err(e) => return json!({"made": k, "err": e.to_string()}),
                };
            }
            json!({"made": v["n"]})
        }
        "mr.drops" => {
            let rs: Vec<_> = v["ids"].as_array().unwrap().iter().map(|i| h.regions.remove(&(i.as_u64().unwrap() as u32))).collect();
            drop(h);
            drop(rs);
            json!({})
        }
        "mr.drop" => {
            let r = h.regions.remove(&id(&v, "id"));
            drop(h);
            drop(r);
            json!({})
        }
        "mr.count" => json!(h.regions[&id(&v, "id")].ref_count()),
        "mr.size" => json!(h.regions[&id(&v, "id")].buffer_size()),
        "mr.ino" => json!(stat(h.regions[&id(&v, "id")].object().as_raw())["ino"]),
        // Maps a range, reads what is there, then writes
        "mr.map" => {
            let (lo, hi) = (bound(&v["lo"]), bound(&v["hi"]));
            let r = h.regions.get_mut(&id(&v, "id")).unwrap();
            match map_as(r, lo, hi, v["sugar"] == true) {
                Ok(b) => {
                    let before = hash(b);
                    if let Some(s) = v["write"].as_u64() {
                        let d = Rng::new(s).fill(b.len());
                        b.copy_from_slice(&d);
                    }
                    json!({"len": b.len(), "before": before})
                }
                Err(e) => json!({ "err": e.to_string() }),
            }
        }
        _ => harness_error(name),
    }
}
