//! The bus socket without the library: what any process on the machine can do.
//!
//! Addresses and frames are learnt from the library itself, so nothing here depends on their format.
use crate::util::*;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};

/// The listening sockets whose abstract name starts like this: (name bytes, inode).
pub fn listeners(ident: &str) -> Vec<(Vec<u8>, u64)> {
    let text = match std::fs::read("/proc/net/unix") {
        Ok(t) => t,
        Err(e) => harness_error(format!("/proc/net/unix: {e}")),
    };
    let mut v = vec![];
    for line in text.split(|b| *b == b'\n') {
        let f: Vec<&[u8]> = line.splitn(8, |b| *b == b' ').collect();
        if f.len() < 8 || f[3] != b"00010000" {
            continue;
        }
        // the inode is padded with spaces
        let rest = f[7..].concat();
        let rest: &[u8] = &rest;
        let mut all = [f[6], b" ", rest].concat();
        while all.first() == Some(&b' ') {
            all.remove(0);
        }
        let sp = match all.iter().position(|b| *b == b' ') {
            Some(i) => i,
            None => continue,
        };
        let inode: u64 = match std::str::from_utf8(&all[..sp]).ok().and_then(|s| s.parse().ok()) {
            Some(i) => i,
            None => continue,
        };
        let name = &all[sp + 1..];
        if name.first() == Some(&b'@') && name[1..].starts_with(ident.as_bytes()) {
            v.push((name[1..].to_vec(), inode));
        }
    }
    v
}

/// The listeners of exactly this identifier.
pub fn listeners_of(ident: &str) -> Vec<u64> {
    listeners(ident)
        .into_iter()
        .filter(|(n, _)| n[ident.len()..].iter().all(|b| *b == b'@'))
        .map(|x| x.1)
        .collect()
}

/// Which of these processes hold that socket.
pub fn owners(inode: u64, pids: &[i32]) -> Vec<i32> {
    let want = format!("socket:[{inode}]");
    pids.iter()
        .copied()
        .filter(|pid| {
            std::fs::read_dir(format!("/proc/{pid}/fd")).map_or(false, |d| {
                d.flatten().any(|e| {
                    std::fs::read_link(e.path()).map_or(false, |t| t.to_string_lossy() == want)
                })
            })
        })
        .collect()
}

/// How many bytes the library pads an address with.
pub fn address(ident: &str) -> (libc::sockaddr_un, libc::socklen_t) {
    let (name, _) = match listeners(ident).into_iter().find(|(n, _)| {
        n[ident.len()..].iter().all(|b| *b == b'@')
    }) {
        Some(x) => x,
        None => harness_error(format!("no listener for {ident}")),
    };
    address_of(ident, name.len() - ident.len())
}

pub fn address_of(ident: &str, pad: usize) -> (libc::sockaddr_un, libc::socklen_t) {
    let mut a: libc::sockaddr_un = unsafe { std::mem::zeroed() };
    a.sun_family = libc::AF_UNIX as _;
    for (i, b) in ident.bytes().enumerate().take(107) {
        a.sun_path[1 + i] = b as _;
    }
    (a, (2 + 1 + ident.len() + pad).min(std::mem::size_of_val(&a)) as _)
}

pub fn socket() -> OwnedFd {
    unsafe {
        let fd = libc::socket(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0);
        if fd == -1 {
            harness_error("socket");
        }
        let big: i32 = 8 << 20;
        libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &big as *const _ as _, 4);
        OwnedFd::from_raw_fd(fd)
    }
}

pub fn connect(ident: &str) -> Option<OwnedFd> {
    let fd = socket();
    let (a, len) = address(ident);
    if unsafe { libc::connect(fd.as_raw_fd(), &a as *const _ as _, len) } == -1 {
        return None;
    }
    Some(fd)
}

pub fn pair() -> (OwnedFd, OwnedFd) {
    let mut p = [0; 2];
    unsafe {
        if libc::socketpair(
            libc::AF_UNIX,
            libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC,
            0,
            p.as_mut_ptr(),
        ) == -1
        {
            harness_error("socketpair");
        }
        (OwnedFd::from_raw_fd(p[0]), OwnedFd::from_raw_fd(p[1]))
    }
}

/// Sends one packet; errno on failure.
pub fn send(fd: RawFd, data: &[u8], fds: &[RawFd], flags: i32) -> Result<(), i32> {
    unsafe {
        let mut iov = libc::iovec {
            iov_base: data.as_ptr() as _,
            iov_len: data.len(),
        };
        let mut hdr: libc::msghdr = std::mem::zeroed();
        hdr.msg_iov = &mut iov;
        hdr.msg_iovlen = 1;
        let mut control = vec![0u64; 1 + libc::CMSG_SPACE((fds.len() * 4) as u32) as usize / 8];
        if !fds.is_empty() {
            hdr.msg_control = control.as_mut_ptr() as _;
            hdr.msg_controllen = libc::CMSG_SPACE((fds.len() * 4) as u32) as _;
            let c = libc::CMSG_FIRSTHDR(&hdr);
            (*c).cmsg_level = libc::SOL_SOCKET;
            (*c).cmsg_type = libc::SCM_RIGHTS;
            (*c).cmsg_len = libc::CMSG_LEN((fds.len() * 4) as u32) as _;
            std::ptr::copy_nonoverlapping(fds.as_ptr(), libc::CMSG_DATA(c) as *mut RawFd, fds.len());
        }
        loop {
            if libc::sendmsg(fd, &hdr, flags | libc::MSG_NOSIGNAL) != -1 {
                return Ok(());
            }
            let e = *libc::__errno_location();
            if e != libc::EINTR {
                return Err(e);
            }
        }
    }
}

pub enum Rx {
    Packet(Vec<u8>, Vec<OwnedFd>),
    Eof,
    Silence,
}

pub fn recv(fd: RawFd, timeout_ms: i32) -> Rx {
    unsafe {
        let mut p = libc::pollfd {
            fd,
            events: libc::POLLIN,
            revents: 0,
        };
        let end = now_ns() + timeout_ms as u64 * 1_000_000;
        loop {
            let left = end.saturating_sub(now_ns()) / 1_000_000;
            let r = libc::poll(&mut p, 1, left as i32);
            if r > 0 {
                break;
            }
            if r == 0 {
                return Rx::Silence;
            }
        }
        let mut data = vec![0u8; 1 << 18];
        let mut iov = libc::iovec {
            iov_base: data.as_mut_ptr() as _,
            iov_len: data.len(),
        };
        let mut control = vec![0u64; 200];
        let mut hdr: libc::msghdr = std::mem::zeroed();
        hdr.msg_iov = &mut iov;
        hdr.msg_iovlen = 1;
        hdr.msg_control = control.as_mut_ptr() as _;
        hdr.msg_controllen = control.len() * 8;
        let r = libc::recvmsg(fd, &mut hdr, libc::MSG_CMSG_CLOEXEC);
        if r <= 0 {
            return Rx::Eof;
        }
        data.truncate(r as usize);
        let mut fds = vec![];
        let c = libc::CMSG_FIRSTHDR(&hdr);
        if !c.is_null() && (*c).cmsg_type == libc::SCM_RIGHTS {
            let n = ((*c).cmsg_len - libc::CMSG_LEN(0) as usize) / 4;
            for i in 0..n {
                fds.push(OwnedFd::from_raw_fd(*(libc::CMSG_DATA(c) as *const RawFd).add(i)));
            }
        }
        Rx::Packet(data, fds)
    }
}

/// A controller that only records: what a real endpoint writes when it joins with this label and token.
pub fn record_connect(like: &str, label: &[String], token: &str) -> (Vec<u8>, usize) {
    let (_, len) = address(like);
    let ident = format!("{like}~{:x}", now_ns());
    let pad = (len as usize).saturating_sub(3 + ident.len());
    let (a, len) = address_of(&ident, pad);
    let l = socket();
    unsafe {
        if libc::bind(l.as_raw_fd(), &a as *const _ as _, len) == -1
            || libc::listen(l.as_raw_fd(), 4) == -1
        {
            harness_error(format!("bind {ident}"));
        }
    }
    let mut o = ipmb::Options::new(ident, mk_label(label), token);
    o.controller_affinity = false;
    let t = std::thread::spawn(move || {
        let _ = ipmb::join::<crate::msg::SBox, crate::msg::SBox>(o, Some(ms(0)));
    });
    let c = unsafe {
        let fd = libc::accept4(l.as_raw_fd(), std::ptr::null_mut(), std::ptr::null_mut(), libc::SOCK_CLOEXEC);
        if fd == -1 {
            harness_error("accept");
        }
        OwnedFd::from_raw_fd(fd)
    };
    let r = match recv(c.as_raw_fd(), 10_000) {
        Rx::Packet(d, fds) => (d, fds.len()),
        _ => harness_error("no handshake to record"),
    };
    drop((c, l, t)); // it ends by itself when it has waited for an answer
    r
}

/// A raw participant: it has sent this handshake and reads what the bus sends to it.
pub struct Raw {
    pub conn: OwnedFd,
    pub read: OwnedFd,
}

impl Raw {
    pub fn shake(ident: &str, frame: &[u8]) -> Option<Raw> {
        let conn = connect(ident)?;
        let (read, write) = pair();
        send(conn.as_raw_fd(), frame, &[write.as_raw_fd()], 0).ok()?;
        Some(Raw { conn, read })
    }
}
