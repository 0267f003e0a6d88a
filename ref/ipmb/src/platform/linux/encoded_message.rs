use super::{
    fd::{Local, Remote},
    Buffer,
};
use crate::{
    decode, message, util::Align4, version, Error, MemoryRegion, Object, Selector, Version,
};
use bincode::error::DecodeError;
use std::{io, mem, os::fd::RawFd, ptr, slice, thread, time::Duration};
use type_uuid::TypeUuid;

/// The kernel's limit on the descriptors of one message (SCM_MAX_FD)
const MAXIMUM_FD_COUNT: u32 = 253;

/// Message layout
/// | version (magic__major__minor__patch)
/// | selector_size (u32)
/// | selector
/// | selector_padding
/// | payload_size (u32)
/// | payload
/// | payload_padding
pub(crate) struct EncodedMessage {
    pub selector: crate::Selector,
    pub payload_data: &'static [u8],
    pub iov_data: Buffer,
    pub control_data: Buffer,
    pub objects: Vec<crate::Object>,
    pub memory_regions: Vec<crate::MemoryRegion>,
}

impl EncodedMessage {
    pub fn extract_remote(&mut self) -> Option<Remote> {
        debug_assert_eq!(
            self.selector.uuid,
            <message::ConnectMessage as TypeUuid>::UUID
        );

        let reply = self.objects.pop()?;
        Some(Remote::new(reply))
    }

    // mutable reference ensure no other references
    pub fn from_local(local: &mut Local) -> Result<Self, Error> {
        unsafe {
            // peek meta
            let mut iov = libc::iovec {
                iov_base: ptr::null_mut(),
                iov_len: 0,
            };

            let mut hdr: libc::msghdr = mem::zeroed();
            hdr.msg_iov = &mut iov;
            hdr.msg_iovlen = 1;

            let mut r = recvmsg(
                local,
                &mut hdr,
                libc::MSG_PEEK | libc::MSG_TRUNC | libc::MSG_CTRUNC,
            );
            // When remote disconnected, recvmsg returns 0
            if r <= 0 {
                return Err(Error::Disconnect);
            }

            let meta = Meta {
                iov_len: r as _,
                // TODO: How to peek this?
                control_len: libc::CMSG_SPACE(MAXIMUM_FD_COUNT * mem::size_of::<RawFd>() as u32),
            };

            // recv payload
            let mut iov_data = Buffer::zeroed(meta.iov_len as _);
            iov.iov_base = iov_data.as_mut_ptr() as _;
            iov.iov_len = iov_data.len();

            let mut control_data = Buffer::zeroed(meta.control_len as _);
            hdr.msg_control = control_data.as_mut_ptr() as _;
            hdr.msg_controllen = control_data.len() as _;

            hdr.msg_flags = 0;

            r = recvmsg(local, &mut hdr, libc::MSG_CMSG_CLOEXEC);
            // When remote disconnected, recvmsg returns 0
            if r <= 0 {
                return Err(Error::Disconnect);
            }

            // Take ownership of the descriptors first, they must be closed on every error
            let mut objects = vec![];

            if hdr.msg_controllen > 0 {
                let control_ptr = control_data.as_ptr() as *const libc::cmsghdr;
                let mut control_data_ptr = libc::CMSG_DATA(control_ptr) as *const RawFd;

                let control_count = ((*control_ptr).cmsg_len as usize
                    - (control_data_ptr as usize - control_ptr as usize))
                    / mem::size_of::<RawFd>();

                for _ in 0..control_count {
                    objects.push(Object::from_raw(ptr::read(control_data_ptr)));
                    control_data_ptr = control_data_ptr.offset(1);
                }
            }

            if (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC)
                || (hdr.msg_flags & libc::MSG_CTRUNC == libc::MSG_CTRUNC)
            {
                return Err(Error::Disconnect);
            }

            // The rest of the buffer is uninitialised, and this message may be forwarded
            control_data.truncate(hdr.msg_controllen as _);

            iov_data.truncate(r as _);

            // parse
            let mut frame = slice::from_raw_parts(iov_data.as_ptr(), iov_data.len());
            let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(take_u32(&mut frame)?);
            // The last object of a connect message is where to reply
            if magic != 0xFF {
                return Err(Error::VersionMismatch(
                    Version((0, 0, 0)),
                    objects.pop().map(Remote::new),
                ));
            }
            let remote_version = Version((major, minor, patch));

            if !version().compatible(remote_version) {
                return Err(Error::VersionMismatch(
                    remote_version,
                    objects.pop().map(Remote::new),
                ));
            }

            let selector_size = take_u32(&mut frame)? as usize;
            let selector: Selector =
                decode(&take(&mut frame, selector_size.align4())?[..selector_size])?;

            let payload_size = take_u32(&mut frame)? as usize;
            let payload_data = take(&mut frame, payload_size)?;

            let regions_start = objects
                .len()
                .checked_sub(selector.memory_region_count as usize)
                .ok_or_else(malformed)?;
            let memory_regions = objects
                .drain(regions_start..)
                .map(|obj| {
                    let r = MemoryRegion::try_from_object(obj).map_err(|_| malformed())?;
                    r.ref_count_inner(-1);
                    Ok(r)
                })
                .collect::<Result<Vec<_>, Error>>()?;

            Ok(Self {
                selector,
                payload_data,
                iov_data,
                control_data,
                objects,
                memory_regions,
            })
        }
    }

    pub fn send(&mut self, remote: &Remote) -> Result<(), Error> {
        let mut iov = libc::iovec {
            iov_base: ptr::null_mut(),
            iov_len: 0,
        };
        let mut hdr: libc::msghdr = unsafe { mem::zeroed() };
        hdr.msg_iov = &mut iov;
        hdr.msg_iovlen = 1;

        // send payload
        iov.iov_base = self.iov_data.as_mut_ptr() as _;
        iov.iov_len = self.iov_data.len();

        hdr.msg_control = self.control_data.as_mut_ptr() as _;
        hdr.msg_controllen = self.control_data.len() as _;

        // Add memory region's ref count
        for r in self.memory_regions.iter() {
            r.ref_count_inner(1);
        }

        let mut flags = 0;
        if self.selector.uuid == <message::ConnectMessageAck as TypeUuid>::UUID {
            // There is room for it, unless the endpoint is hostile
            flags |= libc::MSG_DONTWAIT;
        }

        let remote_guard = remote.lock();
        loop {
            let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, flags) };
            if r != -1 {
                break Ok(());
            }

            let err = io::Error::last_os_error();
            match err.raw_os_error() {
                // Retry
                Some(libc::EINTR) => continue,
                Some(libc::ENOBUFS | libc::ENOMEM | libc::ETOOMANYREFS) => {
                    thread::sleep(Duration::from_millis(200));
                    continue;
                }
                _ => {}
            }

            for r in self.memory_regions.iter() {
                r.ref_count_inner(-1);
            }
            log::error!("sendmsg: {}", err);

            break match err.raw_os_error() {
                // The message cannot be transported (too large, too many attachments), the
                // connection is still good
                Some(libc::EMSGSIZE | libc::EINVAL) => Ok(()),
                Some(libc::EAGAIN) => Err(Error::Timeout),
                _ => Err(Error::Disconnect),
            };
        }
    }
}

struct Meta {
    iov_len: u32,
    control_len: u32,
}

unsafe fn recvmsg(local: &Local, hdr: &mut libc::msghdr, flags: i32) -> isize {
    loop {
        let r = libc::recvmsg(local.0.as_raw(), hdr, flags);
        if r != -1 || io::Error::last_os_error().kind() != io::ErrorKind::Interrupted {
            break r;
        }
    }
}

fn malformed() -> Error {
    Error::Decode(DecodeError::Other("malformed message"))
}

fn take(frame: &mut &'static [u8], size: usize) -> Result<&'static [u8], Error> {
    if size > frame.len() {
        return Err(malformed());
    }
    let (head, tail) = frame.split_at(size);
    *frame = tail;
    Ok(head)
}

fn take_u32(frame: &mut &'static [u8]) -> Result<u32, Error> {
    let mut bytes = [0; 4];
    bytes.copy_from_slice(take(frame, 4)?);
    Ok(u32::from_ne_bytes(bytes))
}
