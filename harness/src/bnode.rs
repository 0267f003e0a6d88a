//! The same participant as ffi/node.cc, in Rust: obeys commands, one per line.
use crate::util::*;
use ipmb::{BytesMessage, EndpointReceiver, EndpointSender, JoinError, MemoryRegion, MemoryRegistry, Message, MessageBox, Object, RecvError, Selector};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::rc::Rc;
use type_uuid::{Bytes, TypeUuid};

/// A message of the byte interface, or anything else that is to look like one.
pub enum Any {
    Bytes(BytesMessage),
    Raw(Bytes, Vec<u8>),
}

impl MessageBox for Any {
    fn decode(uuid: Bytes, data: &[u8]) -> Result<Self, ipmb::Error> {
        BytesMessage::decode(uuid, data).map(Any::Bytes)
    }
    fn encode(&self) -> Result<Vec<u8>, ipmb::Error> {
        match self {
            Any::Bytes(b) => b.encode(),
            Any::Raw(_, d) => Ok(d.clone()),
        }
    }
    fn uuid(&self) -> Bytes {
        match self {
            Any::Bytes(b) => b.uuid(),
            Any::Raw(u, _) => *u,
        }
    }
}

fn unhex(s: &str) -> String {
    if s == "-" {
        return String::new();
    }
    let v: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(v).unwrap_or_else(|_| harness_error("utf-8"))
}

fn identity(o: Option<&Object>) -> String {
    let Some(o) = o else { return "null".into() };
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::fstat(o.as_raw(), &mut st) != 0 {
            return "closed".into();
        }
        if libc::fcntl(o.as_raw(), libc::F_GETFD) & libc::FD_CLOEXEC == 0 {
            return "inheritable".into();
        }
        st.st_ino.to_string()
    }
}

fn join_code(e: &JoinError) -> String {
    match e {
        JoinError::Timeout => "timeout",
        JoinError::TokenMismatch => "token",
        JoinError::VersionMismatch(_) => "version",
        JoinError::PermissionDenied => "permission",
    }
    .into()
}

#[derive(Default)]
struct End {
    s: Option<EndpointSender<Any>>,
    r: Option<EndpointReceiver<BytesMessage>>,
}

pub fn main() {
    let mut ends: BTreeMap<i32, End> = BTreeMap::new();
    let mut out_msgs: BTreeMap<i32, Message<Any>> = BTreeMap::new();
    let mut in_msgs: BTreeMap<i32, Message<BytesMessage>> = BTreeMap::new();
    let mut regions: BTreeMap<i32, MemoryRegion> = BTreeMap::new();
    let mut regs: BTreeMap<i32, MemoryRegistry> = BTreeMap::new();
    let mut objs: BTreeMap<i32, Object> = BTreeMap::new();
    let freed: Rc<RefCell<Vec<i32>>> = Rc::default();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let w: Vec<&str> = line.split(' ').collect();
        let num = |i: usize| w[i].parse::<i32>().unwrap_or_else(|_| harness_error(&line));
        let big = |i: usize| w[i].parse::<u64>().unwrap_or_else(|_| harness_error(&line));
        let ok = || "ok".to_owned();
        let reply: String = match w[0] {
            "quit" => break,
            "join" => {
                let label: Vec<String> = if w[3] == "-" { vec![] } else { w[3].split(',').map(unhex).collect() };
                let mut o = ipmb::Options::new(unhex(w[2]), mk_label(&label), unhex(w[4]));
                o.controller_affinity = w[5] == "1";
                let t = big(6);
                match ipmb::join(o, (t != u32::MAX as u64).then(|| ms(t))) {
                    Ok((s, r)) => {
                        let e = ends.entry(num(1)).or_default();
                        e.s = (w[7] != "r").then_some(s);
                        e.r = (w[7] != "s").then_some(r);
                        ok()
                    }
                    Err(e) => join_code(&e),
                }
            }
            "msg" => {
                let mut at = 0;
                let t = unhex(w[3]);
                let op = Op::parse(&t, &mut at).unwrap_or_else(|| harness_error(&line)).build();
                let mut s = if w[2] == "u" { Selector::unicast(op) } else { Selector::multicast(op) };
                s.ttl = ms(big(4));
                let data = Rng::new(big(6)).fill(big(7) as usize);
                let any = match w.get(8) {
                    Some(&"bad") => Any::Raw(BytesMessage::UUID, [vec![0xff], data].concat()),
                    Some(&"foreign") => Any::Raw([0x77; 16], data),
                    _ => Any::Bytes(BytesMessage { format: big(5) as u16, data }),
                };
                out_msgs.insert(num(1), Message::new(s, any));
                ok()
            }
            "obj" => {
                let o = unsafe {
                    let fd = libc::memfd_create(c"vh".as_ptr(), libc::MFD_CLOEXEC);
                    let v = Rng::new(big(2)).fill(32);
                    libc::write(fd, v.as_ptr() as _, v.len());
                    Object::from_raw(fd)
                };
                let id = identity(Some(&o));
                objs.insert(num(1), o);
                id
            }
            "mobj" => {
                out_msgs.get_mut(&num(1)).unwrap().objects.push(objs.remove(&num(2)).unwrap());
                ok()
            }
            "mreg" => {
                out_msgs.get_mut(&num(1)).unwrap().memory_regions.push(regions.remove(&num(2)).unwrap());
                ok()
            }
            "send" => {
                let m = out_msgs.remove(&num(2)).unwrap();
                match ends[&num(1)].s.as_ref().unwrap().send(m) {
                    Ok(()) => ok(),
                    Err(e) => format!("{e:?}"),
                }
            }
            "mdrop" => {
                out_msgs.remove(&num(1));
                in_msgs.remove(&num(1));
                ok()
            }
            "recv" => {
                let t = big(3);
                let r = ends.get_mut(&num(1)).unwrap().r.as_mut().unwrap();
                match r.recv((t != u32::MAX as u64).then(|| ms(t))) {
                    Ok(m) => {
                        in_msgs.insert(num(2), m);
                        ok()
                    }
                    Err(RecvError::Timeout) => "timeout".into(),
                    Err(RecvError::Decode(_)) => "decode".into(),
                    Err(e) => format!("{e:?}"),
                }
            }
            "mdata" => {
                let p = &in_msgs[&num(1)].payload;
                format!("{} {} {}", p.format, p.data.len(), hash(&p.data))
            }
            "oget" => identity(in_msgs[&num(1)].objects.get(big(2) as usize)),
            "otake" => {
                let v = &mut in_msgs.get_mut(&num(1)).unwrap().objects;
                if (big(2) as usize) < v.len() {
                    let o = v.remove(big(2) as usize);
                    let id = identity(Some(&o));
                    objs.insert(num(3), o);
                    id
                } else {
                    "null".into()
                }
            }
            "oid" => {
                let o = &objs[&num(1)];
                let mut b = [0u8; 32];
                let n = unsafe { libc::pread(o.as_raw(), b.as_mut_ptr() as _, 32, 0) };
                if n != 32 {
                    "unreadable".into()
                } else {
                    format!("{} {}", identity(Some(o)), hash(&b))
                }
            }
            "odrop" => {
                objs.remove(&num(1));
                "closed".into()
            }
            "rget" => "unsupported".into(),
            "rtake" => {
                let v = &mut in_msgs.get_mut(&num(1)).unwrap().memory_regions;
                if (big(2) as usize) < v.len() {
                    let r = v.remove(big(2) as usize);
                    regions.insert(num(3), r);
                    ok()
                } else {
                    "null".into()
                }
            }
            "rnew" => match MemoryRegion::new(big(2) as usize) {
                Some(r) => {
                    regions.insert(num(1), r);
                    ok()
                }
                None => "unknown".into(),
            },
            "rmap" => {
                let (off, n) = (big(2) as usize, w[3].parse::<i64>().unwrap());
                let r = regions.get_mut(&num(1)).unwrap();
                let m = if n < 0 { r.map(off..) } else { r.map(off..off.saturating_add(n as usize)) };
                match m {
                    Ok(b) => format!("{} {}", b.len(), hash(b)),
                    Err(_) => "null".into(),
                }
            }
            "rwrite" => {
                let (off, n) = (big(2) as usize, big(3) as usize);
                match regions.get_mut(&num(1)).unwrap().map(off..off.saturating_add(n)) {
                    Ok(b) => {
                        b.copy_from_slice(&Rng::new(big(4)).fill(n));
                        ok()
                    }
                    Err(_) => "null".into(),
                }
            }
            "rcount" => regions[&num(1)].ref_count().to_string(),
            "rclone" => match regions[&num(1)].clone() {
                Ok(r) => {
                    regions.insert(num(2), r);
                    ok()
                }
                Err(_) => "unknown".into(),
            },
            "rdrop" => {
                regions.remove(&num(1));
                ok()
            }
            "greg" => {
                regs.insert(num(1), MemoryRegistry::default());
                ok()
            }
            "galloc" => {
                let tag = (w[3] != "null").then(|| unhex(w[3]));
                let g = regs.get_mut(&num(1)).unwrap();
                let cb = num(4);
                let m = if cb > 0 {
                    let f = freed.clone();
                    g.alloc_with_free(big(2) as usize, tag.as_deref(), move || f.borrow_mut().push(cb))
                } else {
                    g.alloc(big(2) as usize, tag.as_deref())
                };
                match m {
                    Some(m) => {
                        regions.insert(num(5), m);
                        ok()
                    }
                    None => "unknown".into(),
                }
            }
            "gmaintain" => {
                regs.get_mut(&num(1)).unwrap().maintain();
                ok()
            }
            "gdrop" => {
                regs.remove(&num(1));
                ok()
            }
            "freed" => {
                let mut s = "freed".to_owned();
                for i in freed.borrow().iter() {
                    s += &format!(" {i}");
                }
                s
            }
            "sdrop" => {
                ends.get_mut(&num(1)).unwrap().s = None;
                ok()
            }
            "xdrop" => {
                ends.get_mut(&num(1)).unwrap().r = None;
                ok()
            }
            "version" => format!("{} {}", ipmb::version(), ipmb::version_pre()),
            "fds" => std::fs::read_dir("/proc/self/fd").unwrap().count().to_string(),
            _ => harness_error(&line),
        };
        let _ = std::io::stdout().write_all(format!("{reply}\n").as_bytes());
        let _ = std::io::stdout().flush();
    }
    drop((ends, out_msgs, in_msgs, regions, regs, objs));
    let _ = std::io::stdout().write_all(b"bye\n");
}
