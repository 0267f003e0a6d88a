use std::{
    fmt::Debug,
    io,
    os::fd::{self, AsRawFd, FromRawFd, IntoRawFd},
    sync::{Mutex, MutexGuard},
};

pub struct Fd(fd::OwnedFd);

impl Fd {
    pub fn clone(&self) -> io::Result<Self> {
        self.0.try_clone().map(Self)
    }
}

impl Fd {
    pub unsafe fn from_raw(raw: fd::RawFd) -> Self {
        Self(fd::OwnedFd::from_raw_fd(raw))
    }

    pub fn into_raw(self) -> fd::RawFd {
        self.0.into_raw_fd()
    }

    pub fn as_raw(&self) -> fd::RawFd {
        self.0.as_raw_fd()
    }
}

pub struct Remote {
    v: i32,
    fd: Mutex<Fd>,
}

impl Remote {
    pub fn new(fd: Fd) -> Self {
        Self {
            v: fd.as_raw(),
            fd: Mutex::new(fd),
        }
    }

    pub fn lock(&self) -> MutexGuard<'_, Fd> {
        self.fd.lock().unwrap()
    }

    pub fn is_dead(&self) -> bool {
        // A peer that closed its end in an orderly way is reported as hang up, not as socket error
        let mut poll_fd = libc::pollfd {
            fd: self.v,
            events: 0,
            revents: 0,
        };
        let r = unsafe { libc::poll(&mut poll_fd, 1, 0) };

        r > 0 && poll_fd.revents & (libc::POLLHUP | libc::POLLERR | libc::POLLNVAL) != 0
    }
}

impl Debug for Remote {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("Remote").field("v", &self.v).finish()
    }
}

impl PartialEq for Remote {
    fn eq(&self, other: &Self) -> bool {
        self.v == other.v
    }
}

pub struct Local(pub(crate) Fd);

impl Drop for Local {
    fn drop(&mut self) {
        // Closing is not enough while a process that was forked still holds a duplicate: what is sent
        // would be accepted, but never received
        let _ = unsafe { libc::shutdown(self.0.as_raw(), libc::SHUT_RD) };
    }
}
