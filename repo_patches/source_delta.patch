From 07394c7671844ba5ea5f00f341f2031076d24ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:57 +0000
Subject: [PATCH 01/36] fix: keep bus descriptors and received attachments from
 leaking into child processes (linux)

---
 ipmb/src/platform/linux.rs                 | 8 ++++++--
 ipmb/src/platform/linux/encoded_message.rs | 2 +-
 ipmb/src/platform/linux/io_mul.rs          | 4 ++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 77cce29..b4fd5f2 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -321,8 +321,12 @@ impl IoHub {
                 if let Some(ref listener) = self.listener {
                     if ev.u64 == listener.as_raw() as u64 {
                         unsafe {
-                            let fd =
-                                libc::accept(listener.as_raw(), ptr::null_mut(), ptr::null_mut());
+                            let fd = libc::accept4(
+                                listener.as_raw(),
+                                ptr::null_mut(),
+                                ptr::null_mut(),
+                                libc::SOCK_CLOEXEC,
+                            );
                             if fd != -1 {
                                 let local = Local(Fd::from_raw(fd));
                                 let _ = libc::setsockopt(
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 18c45ab..459a511 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -72,7 +72,7 @@ impl EncodedMessage {
 
             hdr.msg_flags = 0;
 
-            r = libc::recvmsg(local.0.as_raw(), &mut hdr, 0);
+            r = libc::recvmsg(local.0.as_raw(), &mut hdr, libc::MSG_CMSG_CLOEXEC);
             // When remote disconnected, recvmsg returns 0
             if r <= 0
                 || (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC)
diff --git a/ipmb/src/platform/linux/io_mul.rs b/ipmb/src/platform/linux/io_mul.rs
index df3d8ca..f9eb9f8 100644
--- a/ipmb/src/platform/linux/io_mul.rs
+++ b/ipmb/src/platform/linux/io_mul.rs
@@ -9,13 +9,13 @@ pub struct IoMultiplexing {
 impl IoMultiplexing {
     pub fn new() -> Self {
         let fd = unsafe {
-            let fd = libc::epoll_create1(0);
+            let fd = libc::epoll_create1(libc::EPOLL_CLOEXEC);
             assert_ne!(fd, -1);
             Fd::from_raw(fd)
         };
 
         let waker_fd = unsafe {
-            let efd = libc::eventfd(0, 0);
+            let efd = libc::eventfd(0, libc::EFD_CLOEXEC);
             assert_ne!(efd, -1);
             Fd::from_raw(efd)
         };
-- 
2.43.0


From 3765224b15204ad10854448f13647d4816a45fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:17 +0000
Subject: [PATCH 02/36] fix: unregister a connection from epoll before closing
 it (linux)

---
 ipmb/src/platform/linux.rs        | 16 +++++++++++++++-
 ipmb/src/platform/linux/io_mul.rs | 13 +++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index b4fd5f2..d9b924b 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -258,6 +258,19 @@ pub(crate) struct IoHub {
     im: Arc<IoMultiplexing>,
 }
 
+impl Drop for IoHub {
+    fn drop(&mut self) {
+        for fd in self
+            .local_list
+            .iter()
+            .map(|local| &local.0)
+            .chain(self.listener.iter())
+        {
+            self.im.unregister(fd);
+        }
+    }
+}
+
 impl IoHub {
     fn for_bus_controller(
         listener: Fd,
@@ -351,7 +364,8 @@ impl IoHub {
                 {
                     let r = EncodedMessage::from_local(local);
                     if r.is_err() {
-                        self.local_list.swap_remove(i);
+                        let local = self.local_list.swap_remove(i);
+                        self.im.unregister(&local.0);
                     }
                     break 'ret r;
                 }
diff --git a/ipmb/src/platform/linux/io_mul.rs b/ipmb/src/platform/linux/io_mul.rs
index f9eb9f8..4ed7329 100644
--- a/ipmb/src/platform/linux/io_mul.rs
+++ b/ipmb/src/platform/linux/io_mul.rs
@@ -38,6 +38,19 @@ impl IoMultiplexing {
         }
     }
 
+    /// Must be called before `fd` is closed: closing alone leaves the registration in place while
+    /// another process still holds a duplicate of `fd`.
+    pub(crate) fn unregister(&self, fd: &Fd) {
+        unsafe {
+            let _ = libc::epoll_ctl(
+                self.fd.as_raw(),
+                libc::EPOLL_CTL_DEL,
+                fd.as_raw(),
+                std::ptr::null_mut(),
+            );
+        }
+    }
+
     pub(crate) fn wait(&self, events: &mut Vec<libc::epoll_event>, timeout: Option<Duration>) {
         unsafe {
             let n = libc::epoll_wait(
-- 
2.43.0


From d20c62c8d4b7f12cf729b248ba9086cbde1dd7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:28 +0000
Subject: [PATCH 03/36] fix: forward only the control bytes that were received
 (linux)

A message received without attachments was forwarded with an uninitialised control
buffer, so the kernel refused it and the controller dropped the destination endpoint.
---
 ipmb/src/platform/linux/encoded_message.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 459a511..9909fe7 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -81,6 +81,9 @@ impl EncodedMessage {
                 return Err(Error::Disconnect);
             }
 
+            // The rest of the buffer is uninitialised, and this message may be forwarded
+            control_data.truncate(hdr.msg_controllen as _);
+
             // parse
             let mut objects = vec![];
 
-- 
2.43.0


From 8dfb741f3093a0310d61f1468fe43d5278f612aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:28 +0000
Subject: [PATCH 04/36] fix: receive as many attachments as the kernel can
 transport (linux)

More than four attachments truncated the control message, which dropped the sender's
connection and leaked the descriptors that had been installed.
---
 ipmb/src/platform/linux/encoded_message.rs | 26 ++++++++++++++--------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 9909fe7..8f7e6d8 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -5,6 +5,9 @@ use crate::{
 use std::{io, mem, os::fd::RawFd, ptr, slice};
 use type_uuid::TypeUuid;
 
+/// The kernel's limit on the descriptors of one message (SCM_MAX_FD)
+const MAXIMUM_FD_COUNT: u32 = 253;
+
 /// Message layout
 /// | version (magic__major__minor__patch)
 /// | selector_size (u32)
@@ -58,7 +61,8 @@ impl EncodedMessage {
 
             let meta = Meta {
                 iov_len: r as _,
-                control_len: 32, // TODO: How to peek this?
+                // TODO: How to peek this?
+                control_len: libc::CMSG_SPACE(MAXIMUM_FD_COUNT * mem::size_of::<RawFd>() as u32),
             };
 
             // recv payload
@@ -74,17 +78,11 @@ impl EncodedMessage {
 
             r = libc::recvmsg(local.0.as_raw(), &mut hdr, libc::MSG_CMSG_CLOEXEC);
             // When remote disconnected, recvmsg returns 0
-            if r <= 0
-                || (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC)
-                || (hdr.msg_flags & libc::MSG_CTRUNC == libc::MSG_CTRUNC)
-            {
+            if r <= 0 {
                 return Err(Error::Disconnect);
             }
 
-            // The rest of the buffer is uninitialised, and this message may be forwarded
-            control_data.truncate(hdr.msg_controllen as _);
-
-            // parse
+            // Take ownership of the descriptors first, they must be closed on every error
             let mut objects = vec![];
 
             if hdr.msg_controllen > 0 {
@@ -101,6 +99,16 @@ impl EncodedMessage {
                 }
             }
 
+            if (hdr.msg_flags & libc::MSG_TRUNC == libc::MSG_TRUNC)
+                || (hdr.msg_flags & libc::MSG_CTRUNC == libc::MSG_CTRUNC)
+            {
+                return Err(Error::Disconnect);
+            }
+
+            // The rest of the buffer is uninitialised, and this message may be forwarded
+            control_data.truncate(hdr.msg_controllen as _);
+
+            // parse
             let version_ptr = iov_data.as_ptr() as *const u32;
             let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(*version_ptr);
             if magic != 0xFF {
-- 
2.43.0


From bd7c2abb92d330a5de3cda439e5c7534f2aad38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 05/36] fix: never read or map beyond what was received (linux)

Frame sizes, attachment counts and attached regions were trusted, so any process could crash
the bus controller. Malformed messages are now skipped, and a range outside the kernel object
cannot be mapped.
---
 ipmb/src/platform/linux.rs                 | 15 ++++++
 ipmb/src/platform/linux/encoded_message.rs | 58 +++++++++++++++-------
 ipmb/src/platform/mod.rs                   |  9 ++--
 3 files changed, 60 insertions(+), 22 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index d9b924b..d809e06 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -45,6 +45,16 @@ impl platform::MappedRegion {
         aligend_size: usize,
     ) -> Result<*mut u8, Error> {
         let addr = unsafe {
+            // Accessing a page beyond the end of the object is fatal
+            let mut stat: libc::stat = mem::zeroed();
+            if libc::fstat(obj.as_raw(), &mut stat) == -1
+                || aligned_offset
+                    .checked_add(aligend_size)
+                    .map_or(true, |end| end as u64 > stat.st_size as u64)
+            {
+                return Err(Error::MemoryRegionMapping);
+            }
+
             libc::mmap(
                 ptr::null_mut(),
                 aligend_size,
@@ -363,6 +373,11 @@ impl IoHub {
                     .find(|(_, p)| ev.u64 == p.0.as_raw() as u64)
                 {
                     let r = EncodedMessage::from_local(local);
+                    if let Err(Error::Decode(err)) = r {
+                        // The message is already consumed, the connection is still good
+                        log::error!("recvmsg: {}", err);
+                        continue;
+                    }
                     if r.is_err() {
                         let local = self.local_list.swap_remove(i);
                         self.im.unregister(&local.0);
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 8f7e6d8..c1d237b 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -2,6 +2,7 @@ use super::fd::{Local, Remote};
 use crate::{
     decode, message, util::Align4, version, Error, MemoryRegion, Object, Selector, Version,
 };
+use bincode::error::DecodeError;
 use std::{io, mem, os::fd::RawFd, ptr, slice};
 use type_uuid::TypeUuid;
 
@@ -108,9 +109,11 @@ impl EncodedMessage {
             // The rest of the buffer is uninitialised, and this message may be forwarded
             control_data.truncate(hdr.msg_controllen as _);
 
+            iov_data.truncate(r as _);
+
             // parse
-            let version_ptr = iov_data.as_ptr() as *const u32;
-            let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(*version_ptr);
+            let mut frame = slice::from_raw_parts(iov_data.as_ptr(), iov_data.len());
+            let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(take_u32(&mut frame)?);
             if magic != 0xFF {
                 return Err(Error::VersionMismatch(Version((0, 0, 0)), None));
             }
@@ -120,31 +123,29 @@ impl EncodedMessage {
                 return Err(Error::VersionMismatch(remote_version, None));
             }
 
-            let selector_size_ptr = version_ptr.offset(1);
-            let selector_size = *selector_size_ptr;
-            let selector_ptr = selector_size_ptr.offset(1) as *const u8;
-
-            // TODO: Check size
+            let selector_size = take_u32(&mut frame)? as usize;
             let selector: Selector =
-                decode(slice::from_raw_parts(selector_ptr, selector_size as _))?;
+                decode(&take(&mut frame, selector_size.align4())?[..selector_size])?;
+
+            let payload_size = take_u32(&mut frame)? as usize;
+            let payload_data = take(&mut frame, payload_size)?;
 
-            let memory_regions: Vec<_> = objects
-                .drain((objects.len() - selector.memory_region_count as usize)..)
+            let regions_start = objects
+                .len()
+                .checked_sub(selector.memory_region_count as usize)
+                .ok_or_else(malformed)?;
+            let memory_regions = objects
+                .drain(regions_start..)
                 .map(|obj| {
-                    let r = MemoryRegion::from_object(obj);
+                    let r = MemoryRegion::try_from_object(obj).map_err(|_| malformed())?;
                     r.ref_count_inner(-1);
-                    r
+                    Ok(r)
                 })
-                .collect();
-
-            let payload_size_ptr = selector_ptr.offset(selector_size.align4() as _) as *const u32;
+                .collect::<Result<Vec<_>, Error>>()?;
 
             Ok(Self {
                 selector,
-                payload_data: slice::from_raw_parts(
-                    payload_size_ptr.offset(1) as *const u8,
-                    *payload_size_ptr as _,
-                ),
+                payload_data,
                 iov_data,
                 control_data,
                 objects,
@@ -192,3 +193,22 @@ struct Meta {
     iov_len: u32,
     control_len: u32,
 }
+
+fn malformed() -> Error {
+    Error::Decode(DecodeError::Other("malformed message"))
+}
+
+fn take(frame: &mut &'static [u8], size: usize) -> Result<&'static [u8], Error> {
+    if size > frame.len() {
+        return Err(malformed());
+    }
+    let (head, tail) = frame.split_at(size);
+    *frame = tail;
+    Ok(head)
+}
+
+fn take_u32(frame: &mut &'static [u8]) -> Result<u32, Error> {
+    let mut bytes = [0; 4];
+    bytes.copy_from_slice(take(frame, 4)?);
+    Ok(u32::from_ne_bytes(bytes))
+}
diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index 6a8d8b6..a8ea813 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -88,9 +88,12 @@ impl MemoryRegion {
     }
 
     pub fn from_object(obj: Object) -> Self {
+        Self::try_from_object(obj).expect("MappedRegion::from_object")
+    }
+
+    pub(crate) fn try_from_object(obj: Object) -> Result<Self, Error> {
         let mr = unsafe {
-            let header = MappedRegion::from_object(&obj, 0, Self::header_length())
-                .expect("MappedRegion::from_object");
+            let header = MappedRegion::from_object(&obj, 0, Self::header_length())?;
 
             let buffer_size = header
                 .as_slice()
@@ -108,7 +111,7 @@ impl MemoryRegion {
         };
         mr.ref_count_inner(1);
 
-        mr
+        Ok(mr)
     }
 
     pub fn object(&self) -> &Object {
-- 
2.43.0


From 0584d21cba12d398a26240c255a94010bdf026fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 06/36] fix: bound the allocation a received length prefix can
 cause

Decoding a payload with an oversized length prefix aborted the process instead of
returning a decode error.
---
 ipmb/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 4f17f2b..8bb104a 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -73,10 +73,15 @@ pub enum SelectorMode {
     Multicast,
 }
 
+// A length prefix is untrusted, it must not make the decoder allocate without bound
+const DECODE_LIMIT: usize = 1 << 30;
+
 pub fn decode<'de, T: Deserialize<'de>>(data: &'de [u8]) -> Result<T, Error> {
-    let (d, _): (T, _) =
-        bincode::serde::borrow_decode_from_slice(data, bincode::config::standard())
-            .map_err(Error::Decode)?;
+    let (d, _): (T, _) = bincode::serde::borrow_decode_from_slice(
+        data,
+        bincode::config::standard().with_limit::<DECODE_LIMIT>(),
+    )
+    .map_err(Error::Decode)?;
     Ok(d)
 }
 
-- 
2.43.0


From 690129bffae336aa669fa73576b3de1f7fb20452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:23 +0000
Subject: [PATCH 07/36] fix: bound the nesting of a received LabelOp

Decoding a deeply nested expression overflowed the stack of the bus controller.
---
 ipmb/src/label.rs | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/label.rs b/ipmb/src/label.rs
index 7b079af..99a3bcd 100644
--- a/ipmb/src/label.rs
+++ b/ipmb/src/label.rs
@@ -1,7 +1,7 @@
-use serde::{Deserialize, Serialize};
+use serde::{de::Error as _, Deserialize, Deserializer, Serialize};
 use smallvec::SmallVec;
 use smol_str::SmolStr;
-use std::{iter, ops::Not};
+use std::{cell::Cell, iter, ops::Not};
 
 #[derive(Debug, Default, Clone, Serialize, Deserialize, PartialEq)]
 pub struct Label(SmallVec<[SmolStr; 8]>);
@@ -71,9 +71,36 @@ pub enum LabelOp {
     True,
     False,
     Leaf(SmolStr),
-    Not(Box<Self>),
-    And(Box<Self>, Box<Self>),
-    Or(Box<Self>, Box<Self>),
+    Not(#[serde(deserialize_with = "nested")] Box<Self>),
+    And(
+        #[serde(deserialize_with = "nested")] Box<Self>,
+        #[serde(deserialize_with = "nested")] Box<Self>,
+    ),
+    Or(
+        #[serde(deserialize_with = "nested")] Box<Self>,
+        #[serde(deserialize_with = "nested")] Box<Self>,
+    ),
+}
+
+/// A received `LabelOp` is untrusted, decoding it must not exhaust the stack
+const MAXIMUM_NESTING: usize = 512;
+
+fn nested<'de, D: Deserializer<'de>>(deserializer: D) -> Result<Box<LabelOp>, D::Error> {
+    thread_local! {
+        static NESTING: Cell<usize> = Cell::new(0);
+    }
+
+    NESTING.with(|nesting| {
+        let n = nesting.get();
+        if n == MAXIMUM_NESTING {
+            return Err(D::Error::custom("label op is nested too deeply"));
+        }
+
+        nesting.set(n + 1);
+        let r = Box::deserialize(deserializer);
+        nesting.set(n);
+        r
+    })
 }
 
 impl LabelOp {
-- 
2.43.0


From 95482bb4e60a58e5648f70b73879fe51db87e46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:24 +0000
Subject: [PATCH 08/36] fix: tell an endpoint of an incompatible version why it
 is refused (linux)

The bus controller never replied, so the endpoint timed out over and over again.
---
 ipmb/src/platform/linux/encoded_message.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index c1d237b..e60c910 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -114,13 +114,20 @@ impl EncodedMessage {
             // parse
             let mut frame = slice::from_raw_parts(iov_data.as_ptr(), iov_data.len());
             let [magic, major, minor, patch]: [u8; 4] = u32::to_ne_bytes(take_u32(&mut frame)?);
+            // The last object of a connect message is where to reply
             if magic != 0xFF {
-                return Err(Error::VersionMismatch(Version((0, 0, 0)), None));
+                return Err(Error::VersionMismatch(
+                    Version((0, 0, 0)),
+                    objects.pop().map(Remote::new),
+                ));
             }
             let remote_version = Version((major, minor, patch));
 
             if !version().compatible(remote_version) {
-                return Err(Error::VersionMismatch(remote_version, None));
+                return Err(Error::VersionMismatch(
+                    remote_version,
+                    objects.pop().map(Remote::new),
+                ));
             }
 
             let selector_size = take_u32(&mut frame)? as usize;
-- 
2.43.0


From ff35e50d121160c2568630c111e11e84632b8c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 09/36] fix: tell a refused message from a lost connection when
 sending (linux)

A signal, or a message too large for the socket, made send() rejoin the bus (forever in the
latter case) and made the bus controller drop the destination endpoint.
---
 ipmb/src/platform/linux/encoded_message.rs | 33 +++++++++++++++++-----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index e60c910..f3b49e7 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -3,7 +3,7 @@ use crate::{
     decode, message, util::Align4, version, Error, MemoryRegion, Object, Selector, Version,
 };
 use bincode::error::DecodeError;
-use std::{io, mem, os::fd::RawFd, ptr, slice};
+use std::{io, mem, os::fd::RawFd, ptr, slice, thread, time::Duration};
 use type_uuid::TypeUuid;
 
 /// The kernel's limit on the descriptors of one message (SCM_MAX_FD)
@@ -183,15 +183,34 @@ impl EncodedMessage {
         }
 
         let remote_guard = remote.lock();
-        let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, 0) };
-        if r == -1 {
+        loop {
+            let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, 0) };
+            if r != -1 {
+                break Ok(());
+            }
+
+            let err = io::Error::last_os_error();
+            match err.raw_os_error() {
+                // Retry
+                Some(libc::EINTR) => continue,
+                Some(libc::ENOBUFS | libc::ENOMEM | libc::ETOOMANYREFS) => {
+                    thread::sleep(Duration::from_millis(200));
+                    continue;
+                }
+                _ => {}
+            }
+
             for r in self.memory_regions.iter() {
                 r.ref_count_inner(-1);
             }
-            log::error!("sendmsg: {}", io::Error::last_os_error());
-            Err(Error::Disconnect)
-        } else {
-            Ok(())
+            log::error!("sendmsg: {}", err);
+
+            break match err.raw_os_error() {
+                // The message cannot be transported (too large, too many attachments), the
+                // connection is still good
+                Some(libc::EMSGSIZE | libc::EINVAL) => Ok(()),
+                _ => Err(Error::Disconnect),
+            };
         }
     }
 }
-- 
2.43.0


From e41d9914760a01327b38fba027ac2039a55a9721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 10/36] fix: do not raise SIGPIPE when the peer of a connection
 is gone (linux)

---
 ipmb/src/platform/linux/encoded_message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index f3b49e7..6a60661 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -184,7 +184,7 @@ impl EncodedMessage {
 
         let remote_guard = remote.lock();
         loop {
-            let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, 0) };
+            let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, libc::MSG_NOSIGNAL) };
             if r != -1 {
                 break Ok(());
             }
-- 
2.43.0


From d7f169e6a498df478b9990b0956371e3098d727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:24 +0000
Subject: [PATCH 11/36] fix: restart system calls interrupted by a signal
 (linux)

---
 ipmb/src/platform/linux.rs                 | 20 ++++++++++++++------
 ipmb/src/platform/linux/encoded_message.rs | 15 ++++++++++++---
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index d809e06..993ecc8 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -120,13 +120,21 @@ pub(crate) fn look_up(
 
         let addr = identifier_to_socket_addr(identifier);
 
-        let mut r = libc::connect(
-            fd.as_raw(),
-            &addr as *const _ as _,
-            mem::size_of_val(&addr) as _,
-        );
-        if r == -1 {
+        let mut r;
+        loop {
+            r = libc::connect(
+                fd.as_raw(),
+                &addr as *const _ as _,
+                mem::size_of_val(&addr) as _,
+            );
+            if r != -1 {
+                break;
+            }
+
             let err = io::Error::last_os_error();
+            if err.kind() == io::ErrorKind::Interrupted {
+                continue;
+            }
 
             return Err(match err.kind() {
                 io::ErrorKind::ConnectionRefused | io::ErrorKind::NotFound => {
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 6a60661..690c4f0 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -50,8 +50,8 @@ impl EncodedMessage {
             hdr.msg_iov = &mut iov;
             hdr.msg_iovlen = 1;
 
-            let mut r = libc::recvmsg(
-                local.0.as_raw(),
+            let mut r = recvmsg(
+                local,
                 &mut hdr,
                 libc::MSG_PEEK | libc::MSG_TRUNC | libc::MSG_CTRUNC,
             );
@@ -77,7 +77,7 @@ impl EncodedMessage {
 
             hdr.msg_flags = 0;
 
-            r = libc::recvmsg(local.0.as_raw(), &mut hdr, libc::MSG_CMSG_CLOEXEC);
+            r = recvmsg(local, &mut hdr, libc::MSG_CMSG_CLOEXEC);
             // When remote disconnected, recvmsg returns 0
             if r <= 0 {
                 return Err(Error::Disconnect);
@@ -220,6 +220,15 @@ struct Meta {
     control_len: u32,
 }
 
+unsafe fn recvmsg(local: &Local, hdr: &mut libc::msghdr, flags: i32) -> isize {
+    loop {
+        let r = libc::recvmsg(local.0.as_raw(), hdr, flags);
+        if r != -1 || io::Error::last_os_error().kind() != io::ErrorKind::Interrupted {
+            break r;
+        }
+    }
+}
+
 fn malformed() -> Error {
     Error::Decode(DecodeError::Other("malformed message"))
 }
-- 
2.43.0


From 3d5fd17628e7ec151804c7780b50334e80a4bd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 12/36] fix: honour the timeout given to recv and join

It was restarted by every message of another type and by every wake-up, cut to whole
milliseconds, cut short by signals, and panicked or wrapped when it was long.
---
 ipmb/src/lib.rs                   |  9 ++++++++-
 ipmb/src/platform/linux.rs        | 13 ++++++++++---
 ipmb/src/platform/linux/io_mul.rs |  6 +++++-
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 8bb104a..198bafc 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -208,7 +208,13 @@ pub struct EndpointReceiver<R> {
 
 impl<'de, R: MessageBox> EndpointReceiver<R> {
     pub fn recv(&mut self, timeout: Option<Duration>) -> Result<Message<R>, RecvError> {
+        // A timeout too long to be represented never expires
+        let end = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
+
         loop {
+            // Messages of other types don't extend the timeout
+            let timeout = end.map(|end| end.saturating_duration_since(Instant::now()));
+
             let rule = self.rule.read().unwrap();
             match &*rule {
                 Rule::Client {
@@ -418,7 +424,8 @@ impl Rule {
         im: Arc<IoMultiplexing>,
         timeout: Option<Duration>,
     ) -> Result<Self, JoinError> {
-        let end = timeout.map(|timeout| Instant::now() + timeout);
+        // A timeout too long to be represented never expires
+        let end = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
 
         macro_rules! wait {
             () => {
diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 993ecc8..db81c54 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -11,7 +11,7 @@ use std::{
     os::fd::RawFd,
     ptr, slice,
     sync::{mpsc, Arc, Once},
-    time::Duration,
+    time::{Duration, Instant},
 };
 
 mod encoded_message;
@@ -324,6 +324,8 @@ impl IoHub {
         remote: Option<&Remote>,
     ) -> Result<EncodedMessage, Error> {
         let _ = remote;
+        // A timeout too long to be represented never expires
+        let end = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
 
         'ret: loop {
             if let Some(ref rx) = self.bus_rx {
@@ -338,10 +340,15 @@ impl IoHub {
                 }
             }
 
-            self.im.wait(&mut self.in_buffer, timeout);
+            let remain = end.map(|end| end.saturating_duration_since(Instant::now()));
+            self.im.wait(&mut self.in_buffer, remain);
 
             if self.in_buffer.is_empty() {
-                break Err(Error::Timeout);
+                // Neither a signal nor the limited range of the system's timeout is a timeout
+                if end.map_or(false, |end| Instant::now() >= end) {
+                    break Err(Error::Timeout);
+                }
+                continue;
             }
 
             for ev in self.in_buffer.drain(..) {
diff --git a/ipmb/src/platform/linux/io_mul.rs b/ipmb/src/platform/linux/io_mul.rs
index 4ed7329..c634493 100644
--- a/ipmb/src/platform/linux/io_mul.rs
+++ b/ipmb/src/platform/linux/io_mul.rs
@@ -58,7 +58,11 @@ impl IoMultiplexing {
                 events.as_mut_ptr(),
                 events.capacity() as _,
                 timeout
-                    .map(|tot| tot.as_millis() as ffi::c_int)
+                    .map(|tot| {
+                        // Round up, otherwise a fraction of a millisecond is polled
+                        let millis = (tot.as_nanos() + 999_999) / 1_000_000;
+                        millis.min(ffi::c_int::MAX as _) as ffi::c_int
+                    })
                     .unwrap_or(-1),
             );
             if n < 1 {
-- 
2.43.0


From 8c2df0ddc23e251b2afbd2264dc24855f4396bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:59 +0000
Subject: [PATCH 13/36] fix: accept any time to live

A very long one panicked the bus controller.
---
 ipmb/src/bus_controller.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/bus_controller.rs b/ipmb/src/bus_controller.rs
index e5eb1db..f098e06 100644
--- a/ipmb/src/bus_controller.rs
+++ b/ipmb/src/bus_controller.rs
@@ -13,6 +13,8 @@ use std::{
 };
 use type_uuid::TypeUuid;
 
+const FAR_FUTURE: Duration = Duration::from_secs(100 * 365 * 24 * 60 * 60);
+
 pub struct BusController {
     label: Label,
     token: String,
@@ -71,8 +73,11 @@ impl BusController {
 
                 if let Some(remain) = remain {
                     if !remain.selector.ttl.is_zero() {
-                        self.message_buffer
-                            .push((now + remain.selector.ttl, remain));
+                        // A time to live too long to be represented never expires
+                        let expire = now
+                            .checked_add(remain.selector.ttl)
+                            .unwrap_or_else(|| now + FAR_FUTURE);
+                        self.message_buffer.push((expire, remain));
                     }
                 } else if endpoint_connected && !self.message_buffer.is_empty() {
                     let mut message_buffer = mem::take(&mut self.message_buffer);
-- 
2.43.0


From c6fc502910b3987c62e00bde6fe5d02f15a50114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 14/36] fix: do not deliver a message whose time to live has
 passed

On a quiet bus it was still buffered, and delivered to an endpoint that joined later.
---
 ipmb/src/bus_controller.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipmb/src/bus_controller.rs b/ipmb/src/bus_controller.rs
index f098e06..a22a0ea 100644
--- a/ipmb/src/bus_controller.rs
+++ b/ipmb/src/bus_controller.rs
@@ -83,11 +83,13 @@ impl BusController {
                     let mut message_buffer = mem::take(&mut self.message_buffer);
 
                     for (expire, msg) in message_buffer.drain(..) {
+                        if expire <= now {
+                            continue;
+                        }
+
                         let (remain, _) = self.handle_message(msg);
                         if let Some(remain) = remain {
-                            if expire > now {
-                                self.message_buffer_swap.push((expire, remain));
-                            }
+                            self.message_buffer_swap.push((expire, remain));
                         }
                     }
 
-- 
2.43.0


From 9c1e47f846cd8af09c19207ff09568950633176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:01 +0000
Subject: [PATCH 15/36] fix: notice endpoints that left while nothing was sent
 to them (linux)

Their descriptors stayed open in the bus controller for ever.
---
 ipmb/src/platform/linux/fd.rs | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/ipmb/src/platform/linux/fd.rs b/ipmb/src/platform/linux/fd.rs
index a3ffe26..e29fa44 100644
--- a/ipmb/src/platform/linux/fd.rs
+++ b/ipmb/src/platform/linux/fd.rs
@@ -1,6 +1,6 @@
 use std::{
     fmt::Debug,
-    io, mem,
+    io,
     os::fd::{self, AsRawFd, FromRawFd, IntoRawFd},
     sync::{Mutex, MutexGuard},
 };
@@ -45,23 +45,15 @@ impl Remote {
     }
 
     pub fn is_dead(&self) -> bool {
-        let mut err: i32 = 0;
-        let mut len: u32 = mem::size_of_val(&err) as _;
-        let r = unsafe {
-            libc::getsockopt(
-                self.v,
-                libc::SOL_SOCKET,
-                libc::SO_ERROR,
-                &mut err as *mut _ as *mut _,
-                &mut len,
-            )
+        // A peer that closed its end in an orderly way is reported as hang up, not as socket error
+        let mut poll_fd = libc::pollfd {
+            fd: self.v,
+            events: 0,
+            revents: 0,
         };
+        let r = unsafe { libc::poll(&mut poll_fd, 1, 0) };
 
-        if r == -1 || err != 0 {
-            true
-        } else {
-            false
-        }
+        r > 0 && poll_fd.revents & (libc::POLLHUP | libc::POLLERR | libc::POLLNVAL) != 0
     }
 }
 
-- 
2.43.0


From f186a9a64e7148f94889efd76bbde8426c150e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 16/36] fix: refuse to map a range outside of the memory region

It wrapped around, or gave memory that faults when touched; an empty range at a page boundary
could not be mapped.
---
 ipmb/src/platform/mod.rs | 34 ++++++++++++++++++++++++++++------
 ipmb/src/util/mod.rs     | 11 ++++++-----
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index a8ea813..8b30139 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -119,11 +119,18 @@ impl MemoryRegion {
     }
 
     pub fn map(&mut self, range: impl RangeBounds<usize>) -> Result<&mut [u8], Error> {
-        let (offset, size) = util::range_to_offset_size(range);
-        let size = size.unwrap_or_else(|| {
-            usize::try_from(self.buffer_size() - offset as u64).unwrap_or(usize::MAX)
-        });
-        let real_offset = Self::header_length() + offset;
+        let (offset, size) = util::range_to_offset_size(range).ok_or(Error::MemoryRegionMapping)?;
+        let available = self
+            .buffer_size()
+            .checked_sub(offset as u64)
+            .ok_or(Error::MemoryRegionMapping)?;
+        let size = size.unwrap_or_else(|| usize::try_from(available).unwrap_or(usize::MAX));
+        if size as u64 > available {
+            return Err(Error::MemoryRegionMapping);
+        }
+        let real_offset = Self::header_length()
+            .checked_add(offset)
+            .ok_or(Error::MemoryRegionMapping)?;
 
         let need_remap = self
             .buffer
@@ -167,6 +174,10 @@ struct MappedRegion {
 
 impl Drop for MappedRegion {
     fn drop(&mut self) {
+        if self.buffer.is_empty() {
+            return;
+        }
+
         unsafe {
             let aligned_offset = trunc_page(self.offset);
             let adjustment_for_alignment = self.offset - aligned_offset;
@@ -184,9 +195,20 @@ impl MappedRegion {
         offset: usize,
         size: usize,
     ) -> Result<Self, Error> {
+        // Nothing to map, which the system refuses
+        if size == 0 {
+            return Ok(Self {
+                offset,
+                buffer: &mut [],
+            });
+        }
+
         let aligned_offset = trunc_page(offset);
         let adjustment_for_alignment = offset - aligned_offset;
-        let addr = Self::map(obj, aligned_offset, adjustment_for_alignment + size)?;
+        let aligned_size = adjustment_for_alignment
+            .checked_add(size)
+            .ok_or(Error::MemoryRegionMapping)?;
+        let addr = Self::map(obj, aligned_offset, aligned_size)?;
 
         Ok(Self {
             offset,
diff --git a/ipmb/src/util/mod.rs b/ipmb/src/util/mod.rs
index 326e85b..afebcef 100644
--- a/ipmb/src/util/mod.rs
+++ b/ipmb/src/util/mod.rs
@@ -58,17 +58,18 @@ pub fn rand_string(length: usize) -> String {
         .collect()
 }
 
-pub fn range_to_offset_size<S: RangeBounds<usize>>(bounds: S) -> (usize, Option<usize>) {
+/// Returns `None` if the bounds don't denote a range.
+pub fn range_to_offset_size<S: RangeBounds<usize>>(bounds: S) -> Option<(usize, Option<usize>)> {
     let offset = match bounds.start_bound() {
         Bound::Included(&bound) => bound,
-        Bound::Excluded(&bound) => bound + 1,
+        Bound::Excluded(&bound) => bound.checked_add(1)?,
         Bound::Unbounded => 0,
     };
     let size = match bounds.end_bound() {
-        Bound::Included(&bound) => Some(bound + 1 - offset),
-        Bound::Excluded(&bound) => Some(bound - offset),
+        Bound::Included(&bound) => Some(bound.checked_add(1)?.checked_sub(offset)?),
+        Bound::Excluded(&bound) => Some(bound.checked_sub(offset)?),
         Bound::Unbounded => None,
     };
 
-    (offset, size)
+    Some((offset, size))
 }
-- 
2.43.0


From 2b56b665301666096097b09f07667480387a2970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 17/36] fix: do not call free while the memory region is still
 referenced

An entry that had not been allocated for five seconds was dropped from the registry, which
called free, even though the region was in use.
---
 ipmb/src/memory_registry.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ipmb/src/memory_registry.rs b/ipmb/src/memory_registry.rs
index 6a17adb..651d704 100644
--- a/ipmb/src/memory_registry.rs
+++ b/ipmb/src/memory_registry.rs
@@ -67,13 +67,14 @@ impl MemoryRegistry {
     fn maintain_inner(&mut self, now: Instant) {
         self.inner.retain(|_, rs| {
             rs.retain_mut(|r| {
-                let should_retain = (now - r.last_alloc) < Duration::from_secs(5);
-
                 if r.region.ref_count() == 1 {
                     r.guard = Guard { free: None };
                 }
 
-                should_retain
+                // Dropping the entry calls free, which must wait until the region is released
+                let should_retain = (now - r.last_alloc) < Duration::from_secs(5);
+
+                should_retain || r.guard.free.is_some()
             });
             !rs.is_empty()
         });
-- 
2.43.0


From 990399f19bfebc2fc60aa5f354b6f578b30ab268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 18/36] fix: fail the allocation of a memory region of
 overflowing size

alloc and MemoryRegion::new report failure as None, but panicked.
---
 ipmb/src/memory_registry.rs | 2 +-
 ipmb/src/platform/mod.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/memory_registry.rs b/ipmb/src/memory_registry.rs
index 651d704..30348ed 100644
--- a/ipmb/src/memory_registry.rs
+++ b/ipmb/src/memory_registry.rs
@@ -34,7 +34,7 @@ impl MemoryRegistry {
     ) -> Option<MemoryRegion> {
         let now = Instant::now();
 
-        for (_, rs) in self.inner.range_mut(min_size..min_size * 2) {
+        for (_, rs) in self.inner.range_mut(min_size..min_size.saturating_mul(2)) {
             for r in rs {
                 if r.region.ref_count_inner(0) == 1 && tag == r.tag.as_deref() {
                     r.last_alloc = now;
diff --git a/ipmb/src/platform/mod.rs b/ipmb/src/platform/mod.rs
index 8b30139..e090ddf 100644
--- a/ipmb/src/platform/mod.rs
+++ b/ipmb/src/platform/mod.rs
@@ -61,7 +61,7 @@ impl MemoryRegion {
     }
 
     pub fn new(size: usize) -> Option<Self> {
-        let real_size = Self::header_length() + size;
+        let real_size = Self::header_length().checked_add(size)?;
         let obj = Self::obj_new(real_size)?;
 
         unsafe {
-- 
2.43.0


From 9110bf0b01781729bad7ae8fce05d9e190885aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:15 +0000
Subject: [PATCH 19/36] fix: accept an empty message with a null pointer in the
 C interface

---
 ipmb-ffi/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index c950e0a..f297000 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -282,7 +282,12 @@ pub unsafe extern "C" fn ipmb_message(
     ptr: *const u8,
     size: u32,
 ) -> Message {
-    let data = slice::from_raw_parts(ptr, size as _).to_owned();
+    // An empty buffer may have a null pointer
+    let data = if size == 0 {
+        vec![]
+    } else {
+        slice::from_raw_parts(ptr, size as _).to_owned()
+    };
 
     ipmb::Message::<ipmb::BytesMessage>::new(selector.into(), ipmb::BytesMessage { format, data })
         .into()
-- 
2.43.0


From 09e243f263026b04983abb10dff565ddd13fca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:15 +0000
Subject: [PATCH 20/36] fix: return null for a range that overflows in the C
 interface

---
 ipmb-ffi/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipmb-ffi/src/lib.rs b/ipmb-ffi/src/lib.rs
index f297000..e4c9965 100644
--- a/ipmb-ffi/src/lib.rs
+++ b/ipmb-ffi/src/lib.rs
@@ -411,7 +411,7 @@ pub unsafe extern "C" fn ipmb_memory_region_map(
     if size < 0 {
         region.map(offset..)
     } else {
-        region.map(offset..offset + size as usize)
+        region.map(offset..offset.saturating_add(size as usize))
     }
     .map(|v| {
         if !real_size.is_null() {
-- 
2.43.0


From cc42793c04d72e441368a412aa945947376734e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 21/36] fix: close the Node receiver even while messages keep
 arriving

close() waited for a gap of 200 ms between two messages.
---
 ipmb-js/src/lib.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/ipmb-js/src/lib.rs b/ipmb-js/src/lib.rs
index c83f50a..f53078f 100644
--- a/ipmb-js/src/lib.rs
+++ b/ipmb-js/src/lib.rs
@@ -282,19 +282,22 @@ pub fn join(options: Options, timeout: Option<u32>, mut env: Env) -> Result<napi
     thread::spawn(move || loop {
         let r = receiver.recv(Some(Duration::from_millis(200)));
 
+        // Check every time, messages may never stop arriving
+        match guard_receiver.try_recv() {
+            Ok(_) => {
+                tsfn.destroy();
+                break;
+            }
+            Err(mpsc::TryRecvError::Disconnected) => {
+                break;
+            }
+            Err(mpsc::TryRecvError::Empty) => {}
+        }
+
         match r {
-            Err(ipmb::RecvError::Timeout) => match guard_receiver.try_recv() {
-                Ok(_) => {
-                    tsfn.destroy();
-                    break;
-                }
-                Err(mpsc::TryRecvError::Disconnected) => {
-                    break;
-                }
-                Err(mpsc::TryRecvError::Empty) => {
-                    tsfn.call(DelegateAction::CleanTimeout);
-                }
-            },
+            Err(ipmb::RecvError::Timeout) => {
+                tsfn.call(DelegateAction::CleanTimeout);
+            }
             Err(
                 ipmb::RecvError::VersionMismatch(_)
                 | ipmb::RecvError::TokenMismatch
-- 
2.43.0


From 72797c9211a3120d95f71a30884bce1d110d662b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 22/36] fix: let the receiver be dropped while senders are
 blocked

Dropping it waited for the senders of the same endpoint, which waited for the bus controller,
which waited for the undrained messages of that receiver.
---
 ipmb/src/lib.rs | 48 +++++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 198bafc..97e3612 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -13,6 +13,7 @@ use std::{
     fmt::{Display, Formatter},
     marker::PhantomData,
     sync::{
+        atomic::{AtomicBool, Ordering},
         mpsc,
         mpsc::{Receiver, RecvTimeoutError, Sender},
         Arc, Mutex, RwLock,
@@ -161,10 +162,10 @@ impl<T: MessageBox> EndpointSender<T> {
                                 epoch: epoch1,
                             } => {
                                 if epoch == *epoch1 {
-                                    let reader_closed = *reader_closed;
+                                    let reader_closed = reader_closed.load(Ordering::SeqCst);
 
                                     // Close reader
-                                    drop(io_hub.take());
+                                    drop(io_hub.get_mut().unwrap().take());
 
                                     *rule = Rule::join(
                                         options.clone(),
@@ -226,8 +227,11 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                     im: _,
                     epoch,
                 } => {
-                    if !*reader_closed && io_hub.is_none() {
+                    let mut io_hub_guard = io_hub.lock().unwrap();
+
+                    if !reader_closed.load(Ordering::SeqCst) && io_hub_guard.is_none() {
                         let epoch = *epoch;
+                        drop(io_hub_guard);
                         drop(rule);
 
                         let mut rule = self.rule.write().unwrap();
@@ -242,10 +246,10 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                 epoch: epoch1,
                             } => {
                                 if epoch == *epoch1 {
-                                    let reader_closed = *reader_closed;
+                                    let reader_closed = reader_closed.load(Ordering::SeqCst);
 
                                     // Close reader
-                                    drop(io_hub.take());
+                                    drop(io_hub.get_mut().unwrap().take());
 
                                     *rule = Rule::join(
                                         options.clone(),
@@ -265,9 +269,9 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                         }
                     }
 
-                    let mut io_hub_guard = io_hub.as_ref().expect("reader closed").lock().unwrap();
+                    let io_hub_mut = io_hub_guard.as_mut().expect("reader closed");
 
-                    match io_hub_guard.recv(timeout, Some(remote)) {
+                    match io_hub_mut.recv(timeout, Some(remote)) {
                         Ok(encoded_msg) => {
                             if encoded_msg.selector.label_op.validate(&options.label) {
                                 match R::decode(encoded_msg.selector.uuid, encoded_msg.payload_data)
@@ -311,10 +315,10 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                     epoch: epoch1,
                                 } => {
                                     if epoch == *epoch1 {
-                                        let reader_closed = *reader_closed;
+                                        let reader_closed = reader_closed.load(Ordering::SeqCst);
 
                                         // Close reader
-                                        drop(io_hub.take());
+                                        drop(io_hub.get_mut().unwrap().take());
 
                                         *rule = Rule::join(
                                             options.clone(),
@@ -345,7 +349,8 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                     receiver,
                     im: _,
                 } => {
-                    let receiver = receiver.as_ref().expect("reader closed").lock().unwrap();
+                    let receiver = receiver.lock().unwrap();
+                    let receiver = receiver.as_ref().expect("reader closed");
                     break match timeout {
                         Some(timeout) => match receiver.recv_timeout(timeout) {
                             Ok(encoded_msg) => {
@@ -392,7 +397,8 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
 
 impl<R> Drop for EndpointReceiver<R> {
     fn drop(&mut self) {
-        let mut rule = self.rule.write().unwrap();
+        // Shared, because the senders blocked by our undrained messages are holding it
+        let rule = self.rule.read().unwrap();
         rule.reader_close();
     }
 }
@@ -403,8 +409,8 @@ enum Rule {
         endpoint_id: EndpointID,
         options: Options,
         remote: Remote,
-        io_hub: Option<Mutex<IoHub>>,
-        reader_closed: bool,
+        io_hub: Mutex<Option<IoHub>>,
+        reader_closed: AtomicBool,
         im: Arc<IoMultiplexing>,
         epoch: u32,
     },
@@ -412,7 +418,7 @@ enum Rule {
         #[allow(dead_code)]
         endpoint_id: EndpointID,
         bus_sender: Mutex<Sender<EncodedMessage>>,
-        receiver: Option<Mutex<Receiver<EncodedMessage>>>,
+        receiver: Mutex<Option<Receiver<EncodedMessage>>>,
         im: Arc<IoMultiplexing>,
     },
 }
@@ -459,8 +465,8 @@ impl Rule {
                         endpoint_id,
                         options,
                         remote,
-                        io_hub: Some(Mutex::new(io_hub)),
-                        reader_closed: false,
+                        io_hub: Mutex::new(Some(io_hub)),
+                        reader_closed: AtomicBool::new(false),
                         im,
                         epoch,
                     };
@@ -493,7 +499,7 @@ impl Rule {
                             let rule = Rule::Server {
                                 endpoint_id,
                                 bus_sender: Mutex::new(bus_sender),
-                                receiver: Some(Mutex::new(receiver)),
+                                receiver: Mutex::new(Some(receiver)),
                                 im,
                             };
                             break rule;
@@ -546,18 +552,18 @@ impl Rule {
 }
 
 impl Rule {
-    fn reader_close(&mut self) {
+    fn reader_close(&self) {
         match self {
             Rule::Client {
                 io_hub,
                 reader_closed,
                 ..
             } => {
-                let _ = io_hub.take();
-                *reader_closed = true;
+                reader_closed.store(true, Ordering::SeqCst);
+                let _ = io_hub.lock().unwrap().take();
             }
             Rule::Server { receiver, .. } => {
-                let _ = receiver.take();
+                let _ = receiver.lock().unwrap().take();
             }
         }
     }
-- 
2.43.0


From b8f5dfb96ba461ede50b031f44ddff469ed1a733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 23/36] fix: do not send uninitialised memory (linux)

---
 ipmb/src/platform/linux.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index db81c54..e6aba77 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -493,6 +493,8 @@ fn alloc_buffer<T>(size: usize) -> Vec<u8> {
         buffer_t_size += 1;
     }
     let mut buf_t = Vec::<T>::with_capacity(buffer_t_size);
+    // Padding is sent too
+    unsafe { ptr::write_bytes(buf_t.as_mut_ptr(), 0, buffer_t_size) };
 
     let buffer_size = buffer_t_size * mem::size_of::<T>();
     let buf =
-- 
2.43.0


From 6c9a9221a1753393e483e05794dcbfa78bb02031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 24/36] fix: never block the bus controller on the reply to a
 connect message (linux)

Any process could hand over a full socket to reply to, and stall the bus.
---
 ipmb/src/platform/linux/encoded_message.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 690c4f0..416b77c 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -182,9 +182,15 @@ impl EncodedMessage {
             r.ref_count_inner(1);
         }
 
+        let mut flags = libc::MSG_NOSIGNAL;
+        if self.selector.uuid == <message::ConnectMessageAck as TypeUuid>::UUID {
+            // There is room for it, unless the endpoint is hostile
+            flags |= libc::MSG_DONTWAIT;
+        }
+
         let remote_guard = remote.lock();
         loop {
-            let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, libc::MSG_NOSIGNAL) };
+            let r = unsafe { libc::sendmsg(remote_guard.as_raw(), &hdr, flags) };
             if r != -1 {
                 break Ok(());
             }
@@ -209,6 +215,7 @@ impl EncodedMessage {
                 // The message cannot be transported (too large, too many attachments), the
                 // connection is still good
                 Some(libc::EMSGSIZE | libc::EINVAL) => Ok(()),
+                Some(libc::EAGAIN) => Err(Error::Timeout),
                 _ => Err(Error::Disconnect),
             };
         }
-- 
2.43.0


From 0404112e70985f051d5c8b2ff954d7480db94caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:33 +0000
Subject: [PATCH 25/36] fix: don't hold the lock of an endpoint while blocked,
 it deadlocks rejoining

---
 ipmb/src/lib.rs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 97e3612..09daed6 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -95,12 +95,12 @@ pub fn join<'de, T: MessageBox, R: MessageBox>(
     options: Options,
     timeout: Option<Duration>,
 ) -> Result<(EndpointSender<T>, EndpointReceiver<R>), JoinError> {
-    let rule = Arc::new(RwLock::new(Rule::join(
+    let rule = Arc::new(RwLock::new(Arc::new(Rule::join(
         options,
         0,
         Arc::new(IoMultiplexing::new()),
         timeout,
-    )?));
+    )?)));
 
     Ok((
         EndpointSender {
@@ -116,7 +116,7 @@ pub fn join<'de, T: MessageBox, R: MessageBox>(
 
 /// The sending half of endpoint, messages can be sent with [`send`](EndpointSender::send).
 pub struct EndpointSender<T> {
-    rule: Arc<RwLock<Rule>>,
+    rule: Arc<RwLock<Arc<Rule>>>,
     _marker: PhantomData<T>,
 }
 
@@ -135,7 +135,8 @@ impl<T: MessageBox> EndpointSender<T> {
         let mut msg = msg.into_encoded();
 
         loop {
-            let rule = self.rule.read().unwrap();
+            // The lock isn't held while blocked, otherwise it would block the others from rejoining
+            let rule = self.rule.read().unwrap().clone();
             match &*rule {
                 Rule::Client {
                     endpoint_id: _,
@@ -151,7 +152,7 @@ impl<T: MessageBox> EndpointSender<T> {
                         drop(rule);
 
                         let mut rule = self.rule.write().unwrap();
-                        match &mut *rule {
+                        match &**rule {
                             Rule::Client {
                                 endpoint_id: _,
                                 options,
@@ -165,14 +166,14 @@ impl<T: MessageBox> EndpointSender<T> {
                                     let reader_closed = reader_closed.load(Ordering::SeqCst);
 
                                     // Close reader
-                                    drop(io_hub.get_mut().unwrap().take());
+                                    drop(io_hub.lock().unwrap().take());
 
-                                    *rule = Rule::join(
+                                    *rule = Arc::new(Rule::join(
                                         options.clone(),
                                         epoch.overflowing_add(1).0,
                                         im.clone(),
                                         None,
-                                    )?;
+                                    )?);
 
                                     if reader_closed {
                                         rule.reader_close();
@@ -203,7 +204,7 @@ impl<T: MessageBox> EndpointSender<T> {
 /// The receiving half of endpoint, messages sent to the endpoint can be retrieved using [`recv`](EndpointReceiver::recv), dropping receiver will close underly receving kernel buffer.
 // Don't impl Clone
 pub struct EndpointReceiver<R> {
-    rule: Arc<RwLock<Rule>>,
+    rule: Arc<RwLock<Arc<Rule>>>,
     _maker: PhantomData<R>,
 }
 
@@ -216,7 +217,8 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
             // Messages of other types don't extend the timeout
             let timeout = end.map(|end| end.saturating_duration_since(Instant::now()));
 
-            let rule = self.rule.read().unwrap();
+            // The lock isn't held while blocked, otherwise it would block the others from rejoining
+            let rule = self.rule.read().unwrap().clone();
             match &*rule {
                 Rule::Client {
                     endpoint_id: _,
@@ -235,7 +237,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                         drop(rule);
 
                         let mut rule = self.rule.write().unwrap();
-                        match &mut *rule {
+                        match &**rule {
                             Rule::Client {
                                 endpoint_id: _,
                                 options,
@@ -249,14 +251,14 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                     let reader_closed = reader_closed.load(Ordering::SeqCst);
 
                                     // Close reader
-                                    drop(io_hub.get_mut().unwrap().take());
+                                    drop(io_hub.lock().unwrap().take());
 
-                                    *rule = Rule::join(
+                                    *rule = Arc::new(Rule::join(
                                         options.clone(),
                                         epoch.overflowing_add(1).0,
                                         im.clone(),
                                         timeout,
-                                    )?;
+                                    )?);
 
                                     if reader_closed {
                                         rule.reader_close();
@@ -304,7 +306,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                             drop(rule);
 
                             let mut rule = self.rule.write().unwrap();
-                            match &mut *rule {
+                            match &**rule {
                                 Rule::Client {
                                     endpoint_id: _,
                                     options,
@@ -318,14 +320,14 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                                         let reader_closed = reader_closed.load(Ordering::SeqCst);
 
                                         // Close reader
-                                        drop(io_hub.get_mut().unwrap().take());
+                                        drop(io_hub.lock().unwrap().take());
 
-                                        *rule = Rule::join(
+                                        *rule = Arc::new(Rule::join(
                                             options.clone(),
                                             epoch.overflowing_add(1).0,
                                             im.clone(),
                                             timeout,
-                                        )?;
+                                        )?);
 
                                         if reader_closed {
                                             rule.reader_close();
-- 
2.43.0


From 2c1de6405c8b151c59f90a5575303e6bc5381c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:55 +0000
Subject: [PATCH 26/36] fix: rejoin without blocking the other handles of the
 endpoint

A thread that rejoins kept the receiver from returning at its timeout and from being dropped until
a controller was reachable, and the time spent waiting before the rejoin didn't count toward the
timeout.
---
 ipmb/src/lib.rs | 207 ++++++++++++++++++++----------------------------
 1 file changed, 85 insertions(+), 122 deletions(-)

diff --git a/ipmb/src/lib.rs b/ipmb/src/lib.rs
index 09daed6..284a432 100644
--- a/ipmb/src/lib.rs
+++ b/ipmb/src/lib.rs
@@ -16,7 +16,7 @@ use std::{
         atomic::{AtomicBool, Ordering},
         mpsc,
         mpsc::{Receiver, RecvTimeoutError, Sender},
-        Arc, Mutex, RwLock,
+        Arc, Mutex, RwLock, TryLockError,
     },
     thread,
     time::{Duration, Instant},
@@ -95,12 +95,15 @@ pub fn join<'de, T: MessageBox, R: MessageBox>(
     options: Options,
     timeout: Option<Duration>,
 ) -> Result<(EndpointSender<T>, EndpointReceiver<R>), JoinError> {
-    let rule = Arc::new(RwLock::new(Arc::new(Rule::join(
-        options,
-        0,
-        Arc::new(IoMultiplexing::new()),
-        timeout,
-    )?)));
+    let rule = Arc::new(SharedRule {
+        rule: RwLock::new(Arc::new(Rule::join(
+            options,
+            0,
+            Arc::new(IoMultiplexing::new()),
+            timeout,
+        )?)),
+        rejoining: Mutex::new(()),
+    });
 
     Ok((
         EndpointSender {
@@ -116,7 +119,7 @@ pub fn join<'de, T: MessageBox, R: MessageBox>(
 
 /// The sending half of endpoint, messages can be sent with [`send`](EndpointSender::send).
 pub struct EndpointSender<T> {
-    rule: Arc<RwLock<Arc<Rule>>>,
+    rule: Arc<SharedRule>,
     _marker: PhantomData<T>,
 }
 
@@ -135,8 +138,7 @@ impl<T: MessageBox> EndpointSender<T> {
         let mut msg = msg.into_encoded();
 
         loop {
-            // The lock isn't held while blocked, otherwise it would block the others from rejoining
-            let rule = self.rule.read().unwrap().clone();
+            let rule = self.rule.get();
             match &*rule {
                 Rule::Client {
                     endpoint_id: _,
@@ -147,42 +149,7 @@ impl<T: MessageBox> EndpointSender<T> {
                     im: _,
                     epoch,
                 } => match msg.send(remote) {
-                    Err(Error::Disconnect) => {
-                        let epoch = *epoch;
-                        drop(rule);
-
-                        let mut rule = self.rule.write().unwrap();
-                        match &**rule {
-                            Rule::Client {
-                                endpoint_id: _,
-                                options,
-                                remote: _,
-                                io_hub,
-                                reader_closed,
-                                im,
-                                epoch: epoch1,
-                            } => {
-                                if epoch == *epoch1 {
-                                    let reader_closed = reader_closed.load(Ordering::SeqCst);
-
-                                    // Close reader
-                                    drop(io_hub.lock().unwrap().take());
-
-                                    *rule = Arc::new(Rule::join(
-                                        options.clone(),
-                                        epoch.overflowing_add(1).0,
-                                        im.clone(),
-                                        None,
-                                    )?);
-
-                                    if reader_closed {
-                                        rule.reader_close();
-                                    }
-                                }
-                            }
-                            Rule::Server { .. } => {}
-                        }
-                    }
+                    Err(Error::Disconnect) => self.rule.rejoin(*epoch, None)?,
                     Err(_) => unreachable!(),
                     Ok(_) => break Ok(()),
                 },
@@ -204,7 +171,7 @@ impl<T: MessageBox> EndpointSender<T> {
 /// The receiving half of endpoint, messages sent to the endpoint can be retrieved using [`recv`](EndpointReceiver::recv), dropping receiver will close underly receving kernel buffer.
 // Don't impl Clone
 pub struct EndpointReceiver<R> {
-    rule: Arc<RwLock<Arc<Rule>>>,
+    rule: Arc<SharedRule>,
     _maker: PhantomData<R>,
 }
 
@@ -217,8 +184,7 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
             // Messages of other types don't extend the timeout
             let timeout = end.map(|end| end.saturating_duration_since(Instant::now()));
 
-            // The lock isn't held while blocked, otherwise it would block the others from rejoining
-            let rule = self.rule.read().unwrap().clone();
+            let rule = self.rule.get();
             match &*rule {
                 Rule::Client {
                     endpoint_id: _,
@@ -232,43 +198,9 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                     let mut io_hub_guard = io_hub.lock().unwrap();
 
                     if !reader_closed.load(Ordering::SeqCst) && io_hub_guard.is_none() {
-                        let epoch = *epoch;
                         drop(io_hub_guard);
-                        drop(rule);
-
-                        let mut rule = self.rule.write().unwrap();
-                        match &**rule {
-                            Rule::Client {
-                                endpoint_id: _,
-                                options,
-                                remote: _,
-                                io_hub,
-                                reader_closed,
-                                im,
-                                epoch: epoch1,
-                            } => {
-                                if epoch == *epoch1 {
-                                    let reader_closed = reader_closed.load(Ordering::SeqCst);
-
-                                    // Close reader
-                                    drop(io_hub.lock().unwrap().take());
-
-                                    *rule = Arc::new(Rule::join(
-                                        options.clone(),
-                                        epoch.overflowing_add(1).0,
-                                        im.clone(),
-                                        timeout,
-                                    )?);
-
-                                    if reader_closed {
-                                        rule.reader_close();
-                                    }
-                                }
-
-                                continue;
-                            }
-                            Rule::Server { .. } => continue,
-                        }
+                        self.rule.rejoin(*epoch, end)?;
+                        continue;
                     }
 
                     let io_hub_mut = io_hub_guard.as_mut().expect("reader closed");
@@ -301,43 +233,8 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
                             }
                         }
                         Err(Error::Disconnect) => {
-                            let epoch = *epoch;
                             drop(io_hub_guard);
-                            drop(rule);
-
-                            let mut rule = self.rule.write().unwrap();
-                            match &**rule {
-                                Rule::Client {
-                                    endpoint_id: _,
-                                    options,
-                                    remote: _,
-                                    io_hub,
-                                    reader_closed,
-                                    im,
-                                    epoch: epoch1,
-                                } => {
-                                    if epoch == *epoch1 {
-                                        let reader_closed = reader_closed.load(Ordering::SeqCst);
-
-                                        // Close reader
-                                        drop(io_hub.lock().unwrap().take());
-
-                                        *rule = Arc::new(Rule::join(
-                                            options.clone(),
-                                            epoch.overflowing_add(1).0,
-                                            im.clone(),
-                                            timeout,
-                                        )?);
-
-                                        if reader_closed {
-                                            rule.reader_close();
-                                        }
-                                    }
-
-                                    continue;
-                                }
-                                Rule::Server { .. } => continue,
-                            }
+                            self.rule.rejoin(*epoch, end)?;
                         }
                         Err(Error::Timeout) => {
                             break Err(RecvError::Timeout);
@@ -399,7 +296,73 @@ impl<'de, R: MessageBox> EndpointReceiver<R> {
 
 impl<R> Drop for EndpointReceiver<R> {
     fn drop(&mut self) {
-        // Shared, because the senders blocked by our undrained messages are holding it
+        self.rule.reader_close();
+    }
+}
+
+/// What the handles of one endpoint share.
+struct SharedRule {
+    rule: RwLock<Arc<Rule>>,
+    rejoining: Mutex<()>,
+}
+
+impl SharedRule {
+    // No lock is held while sending, receiving or joining, otherwise it would block the others
+    fn get(&self) -> Arc<Rule> {
+        self.rule.read().unwrap().clone()
+    }
+
+    /// Join again after the rule of `epoch` was disconnected, unless somebody else did.
+    fn rejoin(&self, epoch: u32, end: Option<Instant>) -> Result<(), JoinError> {
+        let _rejoining = match end {
+            None => self.rejoining.lock().unwrap(),
+            Some(end) => loop {
+                match self.rejoining.try_lock() {
+                    Ok(guard) => break guard,
+                    Err(TryLockError::WouldBlock) => {
+                        if Instant::now() >= end {
+                            return Err(JoinError::Timeout);
+                        }
+                        thread::sleep(Duration::from_millis(1));
+                    }
+                    Err(err) => panic!("{}", err),
+                }
+            },
+        };
+
+        let old = self.get();
+        if let Rule::Client {
+            endpoint_id: _,
+            options,
+            remote: _,
+            io_hub,
+            reader_closed,
+            im,
+            epoch: epoch1,
+        } = &*old
+        {
+            if epoch == *epoch1 {
+                // Close reader
+                drop(io_hub.lock().unwrap().take());
+
+                let new = Rule::join(
+                    options.clone(),
+                    epoch.overflowing_add(1).0,
+                    im.clone(),
+                    end.map(|end| end.saturating_duration_since(Instant::now())),
+                )?;
+
+                let mut rule = self.rule.write().unwrap();
+                if reader_closed.load(Ordering::SeqCst) {
+                    new.reader_close();
+                }
+                *rule = Arc::new(new);
+            }
+        }
+        Ok(())
+    }
+
+    fn reader_close(&self) {
         let rule = self.rule.read().unwrap();
         rule.reader_close();
     }
-- 
2.43.0


From 5e9c67eefcc823361392cfde170b95b00dd4c1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:24 +0000
Subject: [PATCH 27/36] fix: release the free callback when its allocation
 fails (C++)

---
 ipmb-ffi/ipmb.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipmb-ffi/ipmb.cc b/ipmb-ffi/ipmb.cc
index 9ff74fe..cdd6b14 100644
--- a/ipmb-ffi/ipmb.cc
+++ b/ipmb-ffi/ipmb.cc
@@ -192,6 +192,8 @@ namespace ipmb {
             return std::make_tuple(MemoryRegion(region_raw),
                                Error::kSuccess);
         default:
+          // It will never be called
+          delete f;
           return std::make_tuple(MemoryRegion(nullptr), Error::kUnknown);
       }
     }
-- 
2.43.0


From 7e3d8037b282a0d44737610fb4237016c3832a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 28/36] fix: let receive promises expire while messages keep
 arriving (Node)

---
 ipmb-js/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipmb-js/src/lib.rs b/ipmb-js/src/lib.rs
index f53078f..c6b83ad 100644
--- a/ipmb-js/src/lib.rs
+++ b/ipmb-js/src/lib.rs
@@ -454,6 +454,9 @@ extern "C" fn delegate_receiver(
             DelegateAction::Close(tsfn) => local.close(env, tsfn),
             DelegateAction::CleanTimeout => local.clean_timeout(env),
             DelegateAction::Recv(r) => {
+                // Messages may keep arriving before the receiver ever times out
+                local.clean_timeout(env);
+
                 if local.deferred_list.is_empty() {
                     local.messages.push(r);
                 } else {
-- 
2.43.0


From 839914fb922b1baf582624bb269a8be91db730a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 29/36] fix: release the messages left in a closed receiver
 (Node)

---
 ipmb-js/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipmb-js/src/lib.rs b/ipmb-js/src/lib.rs
index c6b83ad..4808b70 100644
--- a/ipmb-js/src/lib.rs
+++ b/ipmb-js/src/lib.rs
@@ -415,6 +415,8 @@ impl LocalBuffer {
 
     fn close(&mut self, env: Env, tsfn: ThreadsafeFunction) {
         self.closed = true;
+        // Nobody can receive them anymore, the buffer itself lives as long as the environment
+        self.messages.clear();
         let deferred_list = mem::take(&mut self.deferred_list);
 
         if let Ok(err) = env.create_error(Error::new(Status::GenericFailure, "closed")) {
-- 
2.43.0


From 99404a6e41b074df17de620c029162de1b2d2c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 30/36] fix: serve the sockets while the controller's own
 endpoint keeps sending

---
 ipmb/src/platform/linux.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index e6aba77..36658f3 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -273,6 +273,7 @@ pub(crate) struct IoHub {
     local_list: Vec<Local>,
     listener: Option<Fd>,
     in_buffer: Vec<libc::epoll_event>,
+    sockets_turn: bool,
     im: Arc<IoMultiplexing>,
 }
 
@@ -302,6 +303,7 @@ impl IoHub {
             local_list: vec![],
             listener: Some(listener),
             in_buffer: Vec::with_capacity(2),
+            sockets_turn: false,
             im,
         }
     }
@@ -314,6 +316,7 @@ impl IoHub {
             local_list: vec![local],
             listener: None,
             in_buffer: Vec::with_capacity(2),
+            sockets_turn: false,
             im,
         }
     }
@@ -328,9 +331,13 @@ impl IoHub {
         let end = timeout.and_then(|timeout| Instant::now().checked_add(timeout));
 
         'ret: loop {
-            if let Some(ref rx) = self.bus_rx {
+            // Take turns, the messages of the own endpoint may never stop arriving
+            let sockets_turn = mem::take(&mut self.sockets_turn);
+
+            if let Some(rx) = self.bus_rx.as_ref().filter(|_| !sockets_turn) {
                 match rx.try_recv() {
                     Ok(message) => {
+                        self.sockets_turn = true;
                         break Ok(message);
                     }
                     Err(mpsc::TryRecvError::Empty) => {}
@@ -340,10 +347,17 @@ impl IoHub {
                 }
             }
 
-            let remain = end.map(|end| end.saturating_duration_since(Instant::now()));
+            let remain = if sockets_turn {
+                Some(Duration::ZERO)
+            } else {
+                end.map(|end| end.saturating_duration_since(Instant::now()))
+            };
             self.im.wait(&mut self.in_buffer, remain);
 
             if self.in_buffer.is_empty() {
+                if sockets_turn {
+                    continue;
+                }
                 // Neither a signal nor the limited range of the system's timeout is a timeout
                 if end.map_or(false, |end| Instant::now() >= end) {
                     break Err(Error::Timeout);
-- 
2.43.0


From e9534f10821168d7369ee4047e593e4afd3f8d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:00 +0000
Subject: [PATCH 31/36] fix: serve every socket that is ready, not the same one
 over and over

---
 ipmb/src/platform/linux.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index 36658f3..d828a12 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -347,12 +347,16 @@ impl IoHub {
                 }
             }
 
-            let remain = if sockets_turn {
-                Some(Duration::ZERO)
-            } else {
-                end.map(|end| end.saturating_duration_since(Instant::now()))
-            };
-            self.im.wait(&mut self.in_buffer, remain);
+            // Serve every socket that was reported before asking again: the same ones are reported
+            // first again while they stay readable
+            if self.in_buffer.is_empty() {
+                let remain = if sockets_turn {
+                    Some(Duration::ZERO)
+                } else {
+                    end.map(|end| end.saturating_duration_since(Instant::now()))
+                };
+                self.im.wait(&mut self.in_buffer, remain);
+            }
 
             if self.in_buffer.is_empty() {
                 if sockets_turn {
@@ -365,7 +369,8 @@ impl IoHub {
                 continue;
             }
 
-            for ev in self.in_buffer.drain(..) {
+            while !self.in_buffer.is_empty() {
+                let ev = self.in_buffer.remove(0);
                 if ev.u64 == self.im.waker_fd.as_raw() as u64 {
                     self.im.clear_waker();
                     continue;
-- 
2.43.0


From 44012a3bd6a53562a5c806688c2e99f8953b3cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:15 +0000
Subject: [PATCH 32/36] fix: notice that the controller ended before it
 answered a join

The joining endpoint kept its own copy of the descriptor the answer comes through, so the
end of the controller went unnoticed and the answer was waited for its full two seconds,
whatever the timeout of the join or the recv.
---
 ipmb/src/platform/linux.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index d828a12..f6a6069 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -209,6 +209,8 @@ pub(crate) fn look_up(
 
         let mut encoded_msg = msg.into_encoded();
         encoded_msg.send(&remote)?;
+        // Only the controller keeps the writing end, so it is noticed when the controller is gone
+        drop(encoded_msg);
 
         let mut io_hub: IoHub = IoHub::for_endpoint(Local(read_fd), im);
         // Wait ack
-- 
2.43.0


From 6535568c7379ddd4407aaaa3b08ac419be60e193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 33/36] fix: free buffers with the alignment they were
 allocated with

The buffers for messages were allocated as u32 or usize and freed as u8, which breaks the
contract of the global allocator.
---
 ipmb/src/platform/linux.rs                 | 45 ++++++++++++++--------
 ipmb/src/platform/linux/encoded_message.rs | 13 ++++---
 2 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/ipmb/src/platform/linux.rs b/ipmb/src/platform/linux.rs
index f6a6069..3ae8352 100644
--- a/ipmb/src/platform/linux.rs
+++ b/ipmb/src/platform/linux.rs
@@ -430,7 +430,7 @@ impl IoHub {
 }
 
 impl<T: MessageBox> message::Message<T> {
-    fn encode_inner(&self) -> (&'static [u8], Vec<u8>, Vec<u8>) {
+    fn encode_inner(&self) -> (&'static [u8], Buffer, Buffer) {
         // iov data
         let mut size = 4 // version 
             + 4 // selector size
@@ -443,7 +443,8 @@ impl<T: MessageBox> message::Message<T> {
         let payload_bytes = self.payload.encode().unwrap();
         size += payload_bytes.len().align4();
 
-        let mut iov_data: Vec<u8> = alloc_buffer::<u32>(size);
+        // Padding is sent too
+        let mut iov_data = Buffer::zeroed(size);
         let payload_data = unsafe {
             let version_ptr = iov_data.as_mut_ptr() as *mut u32;
             let v = version();
@@ -472,7 +473,7 @@ impl<T: MessageBox> message::Message<T> {
         let control_len: u32 =
             ((self.objects.len() + self.memory_regions.len()) * mem::size_of::<RawFd>()) as _;
         size = unsafe { libc::CMSG_SPACE(control_len) } as _;
-        let mut control_data: Vec<u8> = alloc_buffer::<usize>(size);
+        let mut control_data = Buffer::zeroed(size);
         unsafe {
             let control_ptr = control_data.as_mut_ptr() as *mut libc::cmsghdr;
             let control_ref = &mut *control_ptr;
@@ -508,20 +509,34 @@ impl<T: MessageBox> message::Message<T> {
     }
 }
 
-fn alloc_buffer<T>(size: usize) -> Vec<u8> {
-    let mut buffer_t_size = size / mem::size_of::<T>();
-    if size % mem::size_of::<T>() != 0 {
-        buffer_t_size += 1;
+/// Zeroed bytes, aligned for the structures that are read and written in place.
+pub(crate) struct Buffer {
+    words: Vec<usize>,
+    len: usize,
+}
+
+impl Buffer {
+    fn zeroed(len: usize) -> Self {
+        let word = mem::size_of::<usize>();
+        Self {
+            words: vec![0; (len + word - 1) / word],
+            len,
+        }
     }
-    let mut buf_t = Vec::<T>::with_capacity(buffer_t_size);
-    // Padding is sent too
-    unsafe { ptr::write_bytes(buf_t.as_mut_ptr(), 0, buffer_t_size) };
 
-    let buffer_size = buffer_t_size * mem::size_of::<T>();
-    let buf =
-        unsafe { Vec::from_raw_parts(buf_t.as_mut_ptr().cast::<u8>(), buffer_size, buffer_size) };
+    fn as_ptr(&self) -> *const u8 {
+        self.words.as_ptr().cast()
+    }
 
-    mem::forget(buf_t);
+    fn as_mut_ptr(&mut self) -> *mut u8 {
+        self.words.as_mut_ptr().cast()
+    }
+
+    fn len(&self) -> usize {
+        self.len
+    }
 
-    buf
+    fn truncate(&mut self, len: usize) {
+        self.len = self.len.min(len);
+    }
 }
diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 416b77c..eecc0c6 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -1,4 +1,7 @@
-use super::fd::{Local, Remote};
+use super::{
+    fd::{Local, Remote},
+    Buffer,
+};
 use crate::{
     decode, message, util::Align4, version, Error, MemoryRegion, Object, Selector, Version,
 };
@@ -20,8 +23,8 @@ const MAXIMUM_FD_COUNT: u32 = 253;
 pub(crate) struct EncodedMessage {
     pub selector: crate::Selector,
     pub payload_data: &'static [u8],
-    pub iov_data: Vec<u8>,
-    pub control_data: Vec<u8>,
+    pub iov_data: Buffer,
+    pub control_data: Buffer,
     pub objects: Vec<crate::Object>,
     pub memory_regions: Vec<crate::MemoryRegion>,
 }
@@ -67,11 +70,11 @@ impl EncodedMessage {
             };
 
             // recv payload
-            let mut iov_data: Vec<u8> = super::alloc_buffer::<u32>(meta.iov_len as _);
+            let mut iov_data = Buffer::zeroed(meta.iov_len as _);
             iov.iov_base = iov_data.as_mut_ptr() as _;
             iov.iov_len = iov_data.len();
 
-            let mut control_data: Vec<u8> = super::alloc_buffer::<usize>(meta.control_len as _);
+            let mut control_data = Buffer::zeroed(meta.control_len as _);
             hdr.msg_control = control_data.as_mut_ptr() as _;
             hdr.msg_controllen = control_data.len() as _;
 
-- 
2.43.0


From 9529f1bdcff220567d8b1399e292ef8bcee4ffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:50 +0000
Subject: [PATCH 34/36] fix: refuse messages to a closed receiver although a
 forked process holds its socket

---
 ipmb/src/platform/linux/fd.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ipmb/src/platform/linux/fd.rs b/ipmb/src/platform/linux/fd.rs
index e29fa44..0891248 100644
--- a/ipmb/src/platform/linux/fd.rs
+++ b/ipmb/src/platform/linux/fd.rs
@@ -70,3 +70,11 @@ impl PartialEq for Remote {
 }
 
 pub struct Local(pub(crate) Fd);
+
+impl Drop for Local {
+    fn drop(&mut self) {
+        // Closing is not enough while a process that was forked still holds a duplicate: what is sent
+        // would be accepted, but never received
+        let _ = unsafe { libc::shutdown(self.0.as_raw(), libc::SHUT_RD) };
+    }
+}
-- 
2.43.0


From 25433cd9223804cba6e2cd01a9b87b24a80e21bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 35/36] fix: take e41d991 back, a connection of this kind
 (SOCK_SEQPACKET) never raises SIGPIPE

---
 ipmb/src/platform/linux/encoded_message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index eecc0c6..81e59ce 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -185,7 +185,7 @@ impl EncodedMessage {
             r.ref_count_inner(1);
         }
 
-        let mut flags = libc::MSG_NOSIGNAL;
+        let mut flags = 0;
         if self.selector.uuid == <message::ConnectMessageAck as TypeUuid>::UUID {
             // There is room for it, unless the endpoint is hostile
             flags |= libc::MSG_DONTWAIT;
-- 
2.43.0


From a7d0d1beaf14715537597d8538bc0066b446cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:10 +0000
Subject: [PATCH 36/36] fix: do not raise SIGPIPE when the other side of a
 connection handed over by a peer is gone (linux)

A peer may hand over any kind of socket in its connect message, also a
SOCK_STREAM one. Takes 25433cd back.
---
 ipmb/src/platform/linux/encoded_message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipmb/src/platform/linux/encoded_message.rs b/ipmb/src/platform/linux/encoded_message.rs
index 81e59ce..eecc0c6 100644
--- a/ipmb/src/platform/linux/encoded_message.rs
+++ b/ipmb/src/platform/linux/encoded_message.rs
@@ -185,7 +185,7 @@ impl EncodedMessage {
             r.ref_count_inner(1);
         }
 
-        let mut flags = 0;
+        let mut flags = libc::MSG_NOSIGNAL;
         if self.selector.uuid == <message::ConnectMessageAck as TypeUuid>::UUID {
             // There is room for it, unless the endpoint is hostile
             flags |= libc::MSG_DONTWAIT;
-- 
2.43.0

