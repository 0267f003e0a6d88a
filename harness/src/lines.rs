//! A process that obeys commands, one per line, and answers each with a line.
use crate::util::*;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Lines {
    pub name: String,
    child: Child,
    stdin: Option<ChildStdin>,
    stdout: ChildStdout,
    buf: Vec<u8>,
    pub log: Vec<String>,
    /// lines that answer no command
    pub events: Vec<String>,
    pub over: bool,
}

impl Lines {
    pub fn spawn(name: &str, exe: &str, args: &[&str], env: &[(&str, String)]) -> Lines {
        let dir = std::env::var("VH_DIR").unwrap_or_else(|_| harness_error("VH_DIR is not set"));
        let err = std::path::Path::new(&dir).join(format!("err.{name}"));
        let mut child = Command::new(exe)
            .args(args)
            .envs(env.iter().cloned())
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(File::create(err).unwrap())
            .spawn()
            .unwrap_or_else(|e| harness_error(format!("spawn {exe}: {e}")));
        let stdin = child.stdin.take();
        if let Some(i) = &stdin {
            unsafe { libc::fcntl(i.as_raw_fd(), libc::F_SETFL, libc::O_WRONLY | libc::O_NONBLOCK) };
        }
        let stdout = child.stdout.take().unwrap();
        Lines {
            name: name.to_owned(),
            child,
            stdin,
            stdout,
            buf: vec![],
            log: vec![],
            events: vec![],
            over: false,
        }
    }

    pub fn tell(&mut self, line: &str) {
        if self.log.len() > 400 {
            self.log.drain(..200);
        }
        self.log.push(line.to_owned());
        let Some(i) = &mut self.stdin else { return };
        let text = format!("{line}\n");
        let mut text = text.as_bytes();
        while !text.is_empty() {
            match i.write(text) {
                Ok(n) => text = &text[n..],
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                    // It may be waiting until what it says itself is read
                    let fd = |fd, events| libc::pollfd { fd, events, revents: 0 };
                    let mut p = [fd(i.as_raw_fd(), libc::POLLOUT), fd(if self.over { -1 } else { self.stdout.as_raw_fd() }, libc::POLLIN)];
                    unsafe { libc::poll(p.as_mut_ptr(), 2, 1000) };
                    if p[1].revents != 0 {
                        let mut b = [0u8; 65536];
                        match self.stdout.read(&mut b) {
                            Ok(0) | Err(_) => self.over = true,
                            Ok(n) => self.buf.extend_from_slice(&b[..n]),
                        }
                    }
                }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => return,
            }
        }
    }

    /// The next line, if there is one within the time; None also when the process has ended.
    pub fn line(&mut self, within_ms: u64) -> Option<String> {
        let end = now_ns() + within_ms * 1_000_000;
        loop {
            if let Some(i) = self.buf.iter().position(|b| *b == b'\n') {
                let l: Vec<u8> = self.buf.drain(..=i).collect();
                return Some(String::from_utf8_lossy(&l[..i]).into_owned());
            }
            if self.over {
                return None;
            }
            let left = end.saturating_sub(now_ns());
            let mut p = libc::pollfd {
                fd: self.stdout.as_raw_fd(),
                events: libc::POLLIN,
                revents: 0,
            };
            unsafe { libc::poll(&mut p, 1, ((left + 999_999) / 1_000_000) as i32) };
            if p.revents == 0 && now_ns() >= end {
                return None;
            }
            if p.revents != 0 {
                let mut b = [0u8; 65536];
                match self.stdout.read(&mut b) {
                    Ok(0) | Err(_) => self.over = true,
                    Ok(n) => self.buf.extend_from_slice(&b[..n]),
                }
            }
        }
    }

    /// Command and answer. Does not return when the process is stuck or has ended.
    pub fn ask(&mut self, line: &str) -> String {
        self.tell(line);
        match self.answer() {
            Some(l) => {
                if std::env::var("VH_TRACE").is_ok() {
                    eprintln!("{} {line} = {l}", self.name);
                }
                l
            }
            None => self.gone(line),
        }
    }

    /// The answer to what was told.
    pub fn told(&mut self, line: &str) -> String {
        match self.answer() {
            Some(l) => l,
            None => self.gone(line),
        }
    }

    fn answer(&mut self) -> Option<String> {
        let end = now_ns() + 60_000_000_000;
        loop {
            let l = self.line(end.saturating_sub(now_ns()) / 1_000_000)?;
            if !l.starts_with("ev ") {
                return Some(l);
            }
            self.events.push(l);
        }
    }

    /// Takes in events until the time is over.
    pub fn poll(&mut self, ms: u64) {
        let end = now_ns() + ms * 1_000_000;
        while let Some(l) = self.line(end.saturating_sub(now_ns()) / 1_000_000) {
            if !l.starts_with("ev ") {
                OUT.violation("unasked", format!("{}: {l}", self.name));
            }
            self.events.push(l);
        }
        if self.over {
            self.gone("waiting");
        }
    }

    pub fn gone(&mut self, during: &str) -> ! {
        let story = self.log.iter().rev().take(30).rev().cloned().collect::<Vec<_>>().join("; ");
        if !self.over {
            if worst_overshoot_ms() > 5000 {
                OUT.inconclusive(format!("{} did not answer, but the machine stalled", self.name));
            } else {
                let st = std::fs::read_to_string(format!("/proc/{}/wchan", self.child.id())).unwrap_or_default();
                OUT.violation(format!("stuck:{}", word(during)), format!("{} did not return from '{during}' within 60 s ({st}); {story}", self.name));
            }
        } else {
            let st = self.child.wait();
            let code = st.as_ref().ok().and_then(|s| s.code());
            if code == Some(3) {
                harness_error(format!("{}: {story}", self.name));
            }
            OUT.violation(format!("died:{}", word(during)), format!("{} ended with {st:?} at '{during}'; {story}", self.name));
        }
        OUT.finish();
    }

    /// Closes the input and waits for the end.
    pub fn quit(&mut self, farewell: &str) {
        self.tell(farewell);
        loop {
            match self.line(60_000) {
                Some(l) if l == "bye" => {}
                Some(_) => {}
                None if self.over => break,
                None => self.gone(farewell),
            }
        }
        self.stdin = None;
        match self.child.wait() {
            Ok(s) if s.success() => {}
            s => {
                if s.as_ref().ok().and_then(|s| s.code()) == Some(3) {
                    harness_error(&self.name);
                }
                OUT.violation("exit", format!("{} ended with {s:?}; {}", self.name, self.log.join("; ")))
            }
        }
    }

    pub fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        self.over = true;
    }
}

fn word(s: &str) -> &str {
    s.split(' ').next().unwrap_or("")
}

pub fn hex(s: &str) -> String {
    if s.is_empty() {
        return "-".into();
    }
    s.bytes().map(|b| format!("{b:02x}")).collect()
}
