From bfe021de81784232c97ab547f4aadd768009bdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 01/27] fix: poll: do not fail wait() when a notification is
 not in the pipe yet

notify() sets the flag before it writes to the pipe, so a wait() that sees the
flag in between finds the pipe empty. It returned WouldBlock to its caller, and
left Poller::notified set, so that no later notify() did anything.
---
 src/poll.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index 45407c7..c0a780e 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -221,8 +221,12 @@ impl Poller {
             loop {
                 if self.notified.swap(false, Ordering::SeqCst) {
                     // `notify` will have sent a notification in case we were polling. We weren't,
-                    // so remove it.
-                    return self.notify.pop_notification();
+                    // so remove it. It may not have been sent yet, or may have been removed along
+                    // with others already; neither is a reason for this call to fail.
+                    return match self.notify.pop_notification() {
+                        Err(err) if err.kind() != io::ErrorKind::WouldBlock => Err(err),
+                        _ => Ok(()),
+                    };
                 } else if self.waiting_operations.load(Ordering::SeqCst) == 0 {
                     break;
                 }
-- 
2.43.0


From 87d291b27c108fe468cf8b0c71b99031223b1a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 02/27] fix: poll: leave the registration alone when modify()
 fails

modify_with_mode() with an unsupported mode returned an error, but had already
replaced the key and the interest.
---
 src/poll.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/poll.rs b/src/poll.rs
index c0a780e..b9a0b7f 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -156,6 +156,8 @@ impl Poller {
                 .fd_data
                 .get_mut(&fd.as_raw_fd())
                 .ok_or(io::ErrorKind::NotFound)?;
+            // Nothing may change when the mode is not supported.
+            data.remove = cvt_mode_as_remove(mode)?;
             data.key = ev.key;
             let poll_fds_index = data.poll_fds_index;
 
@@ -165,7 +167,6 @@ impl Poller {
                 unsafe { BorrowedFd::borrow_raw(fd.as_raw_fd()) },
                 poll_events(ev),
             );
-            data.remove = cvt_mode_as_remove(mode)?;
 
             Ok(())
         })
-- 
2.43.0


From 3199ecf01eef5a9eec5ecf04fde14625d964460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 03/27] fix: poll: honour the priority interest

Event::with_priority() and Event::set_priority() were ignored unless the
interest was readable too.
---
 src/poll.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/poll.rs b/src/poll.rs
index b9a0b7f..5830977 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -354,6 +354,10 @@ fn poll_events(ev: Event) -> PollFlags {
         PollFlags::OUT | PollFlags::WRBAND
     } else {
         PollFlags::empty()
+    }) | (if ev.extra.is_pri() {
+        PollFlags::PRI
+    } else {
+        PollFlags::empty()
     })
 }
 
-- 
2.43.0


From fc99e8c51d9340be5c5b681b9246269736c0e42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 04/27] fix: poll: stop polling a oneshot source once it has
 been reported

Clearing the interest is not enough: poll() reports POLLERR and POLLHUP without
being asked to. A oneshot source that had hung up was reported by every wait().
The entry now leaves the poll() set until it is modified.
---
 src/poll.rs | 84 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 52 insertions(+), 32 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index 5830977..a6fe2c6 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -58,13 +58,29 @@ struct Fds {
 #[derive(Debug)]
 struct FdData {
     /// The index into `poll_fds` this file descriptor is.
-    poll_fds_index: usize,
+    ///
+    /// This is `None` once a oneshot registration has delivered its event: even with no interest,
+    /// `poll` would keep reporting errors and hangups of a file descriptor it is given.
+    poll_fds_index: Option<usize>,
     /// The key of the `Event` associated with this file descriptor.
     key: usize,
     /// Whether to remove this file descriptor from the poller on the next call to `wait`.
     remove: bool,
 }
 
+impl Fds {
+    /// Removes the `pollfd` at this index, moving the last one into its place.
+    fn remove_poll_fd(&mut self, index: usize) {
+        self.poll_fds.swap_remove(index);
+        if let Some(swapped_pollfd) = self.poll_fds.get(index) {
+            self.fd_data
+                .get_mut(&swapped_pollfd.as_fd().as_raw_fd())
+                .unwrap()
+                .poll_fds_index = Some(index);
+        }
+    }
+}
+
 impl Poller {
     /// Creates a new poller.
     pub fn new() -> io::Result<Poller> {
@@ -121,7 +137,7 @@ impl Poller {
             fds.fd_data.insert(
                 fd,
                 FdData {
-                    poll_fds_index,
+                    poll_fds_index: Some(poll_fds_index),
                     key: ev.key,
                     remove: cvt_mode_as_remove(mode)?,
                 },
@@ -159,14 +175,20 @@ impl Poller {
             // Nothing may change when the mode is not supported.
             data.remove = cvt_mode_as_remove(mode)?;
             data.key = ev.key;
-            let poll_fds_index = data.poll_fds_index;
 
             // SAFETY: This is essentially transmuting a `PollFd<'a>` to a `PollFd<'static>`, which
             // only works if it's removed in time with `delete()`.
-            fds.poll_fds[poll_fds_index] = PollFd::from_borrowed_fd(
+            let poll_fd = PollFd::from_borrowed_fd(
                 unsafe { BorrowedFd::borrow_raw(fd.as_raw_fd()) },
                 poll_events(ev),
             );
+            match data.poll_fds_index {
+                Some(index) => fds.poll_fds[index] = poll_fd,
+                None => {
+                    data.poll_fds_index = Some(fds.poll_fds.len());
+                    fds.poll_fds.push(poll_fd);
+                }
+            }
 
             Ok(())
         })
@@ -190,12 +212,8 @@ impl Poller {
                 .fd_data
                 .remove(&fd.as_raw_fd())
                 .ok_or(io::ErrorKind::NotFound)?;
-            fds.poll_fds.swap_remove(data.poll_fds_index);
-            if let Some(swapped_pollfd) = fds.poll_fds.get(data.poll_fds_index) {
-                fds.fd_data
-                    .get_mut(&swapped_pollfd.as_fd().as_raw_fd())
-                    .unwrap()
-                    .poll_fds_index = data.poll_fds_index;
+            if let Some(index) = data.poll_fds_index {
+                fds.remove_poll_fd(index);
             }
 
             Ok(())
@@ -272,28 +290,30 @@ impl Poller {
                 let fds = &mut *fds;
 
                 events.inner.reserve(num_fd_events);
-                for fd_data in fds.fd_data.values_mut() {
-                    let poll_fd = &mut fds.poll_fds[fd_data.poll_fds_index];
-                    if !poll_fd.revents().is_empty() {
-                        // Store event
-                        let revents = poll_fd.revents();
-                        events.inner.push(Event {
-                            key: fd_data.key,
-                            readable: revents.intersects(read_events()),
-                            writable: revents.intersects(write_events()),
-                            extra: EventExtra { flags: revents },
-                        });
-                        // Remove interest if necessary
-                        if fd_data.remove {
-                            *poll_fd = PollFd::from_borrowed_fd(
-                                unsafe { BorrowedFd::borrow_raw(poll_fd.as_fd().as_raw_fd()) },
-                                PollFlags::empty(),
-                            );
-                        }
-
-                        if events.inner.len() == num_fd_events {
-                            break;
-                        }
+                let mut index = 1;
+                while index < fds.poll_fds.len() && events.inner.len() < num_fd_events {
+                    let poll_fd = &fds.poll_fds[index];
+                    let revents = poll_fd.revents();
+                    if revents.is_empty() {
+                        index += 1;
+                        continue;
+                    }
+
+                    // Store event
+                    let fd_data = fds.fd_data.get_mut(&poll_fd.as_fd().as_raw_fd()).unwrap();
+                    events.inner.push(Event {
+                        key: fd_data.key,
+                        readable: revents.intersects(read_events()),
+                        writable: revents.intersects(write_events()),
+                        extra: EventExtra { flags: revents },
+                    });
+
+                    // Remove interest if necessary, which puts another file descriptor here.
+                    if fd_data.remove {
+                        fd_data.poll_fds_index = None;
+                        fds.remove_poll_fd(index);
+                    } else {
+                        index += 1;
                     }
                 }
             }
-- 
2.43.0


From 38314ae16ab3b8b53a28844bdc48167e74616957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 05/27] fix: do not cut a timeout above i32::MAX milliseconds
 short

wait() returned empty after 24.8 days, long before its timeout: always with
poll(), and with epoll where there is no timerfd.
---
 src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f5cd993..456e43d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -752,7 +752,16 @@ impl Poller {
                 }
 
                 // Clear the notification, if any.
-                self.notified.swap(false, Ordering::SeqCst);
+                let notified = self.notified.swap(false, Ordering::SeqCst);
+
+                // Some backends count milliseconds in an `i32` and stop waiting when it runs out.
+                // Wait for the rest of a longer timeout.
+                if !notified
+                    && events.is_empty()
+                    && timeout > Some(Duration::from_millis(i32::MAX as u64))
+                {
+                    continue;
+                }
 
                 // Indicate number of events.
                 return Ok(events.len());
-- 
2.43.0


From 04278fe85cebb94bacc874c2fda78abeb8a0369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:23 +0000
Subject: [PATCH 06/27] fix: epoll: do not take delivered conditions for
 requested ones

An Event delivered by wait carries the raw epoll flags it was delivered
with (EPOLLIN, EPOLLRDHUP, ...). Passing that event, with readable or
writable changed, to add or modify ORed those flags into the interest,
so that conditions nobody asked for kept being watched and delivered.
Only HUP and PRI can be asked for through the extra information.
---
 src/epoll.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/epoll.rs b/src/epoll.rs
index 331874b..c044f2d 100644
--- a/src/epoll.rs
+++ b/src/epoll.rs
@@ -114,7 +114,7 @@ impl Poller {
             &self.epoll_fd,
             unsafe { rustix::fd::BorrowedFd::borrow_raw(fd) },
             epoll::EventData::new_u64(ev.key as u64),
-            epoll_flags(&ev, mode) | ev.extra.flags,
+            epoll_flags(&ev, mode) | ev.extra.interest(),
         )?;
 
         Ok(())
@@ -134,7 +134,7 @@ impl Poller {
             &self.epoll_fd,
             fd,
             epoll::EventData::new_u64(ev.key as u64),
-            epoll_flags(&ev, mode) | ev.extra.flags,
+            epoll_flags(&ev, mode) | ev.extra.interest(),
         )?;
 
         Ok(())
@@ -370,6 +370,15 @@ impl EventExtra {
         self.flags.set(epoll::EventFlags::PRI, active);
     }
 
+    /// The flags that ask for something in an interest.
+    ///
+    /// An event that was delivered carries everything that was ready, which must not widen the
+    /// interest when that event is used to register or modify a source.
+    #[inline]
+    fn interest(&self) -> epoll::EventFlags {
+        self.flags & (epoll::EventFlags::HUP | epoll::EventFlags::PRI)
+    }
+
     /// Tell if the interrupt flag is set.
     #[inline]
     pub fn is_hup(&self) -> bool {
-- 
2.43.0


From 7a372357c09086d11ce85c12550e83f4c3d5c1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 07/27] fix: iocp: an update queued while a wait begins is not
 left for the next wait

A wait sets `polling`, drains the update queue and then blocks. An update
that read `polling` before that and pushed after the drain stayed in the
queue until the next wait, so the registration or modification had no
effect on the wait that was blocked. Look at `polling` again after the push.
---
 src/iocp/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index 3a66186..a7bc3bf 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -55,7 +55,7 @@ use std::os::windows::io::{
     AsHandle, AsRawHandle, AsRawSocket, BorrowedHandle, BorrowedSocket, RawHandle, RawSocket,
 };
 use std::pin::Pin;
-use std::sync::atomic::{AtomicBool, Ordering};
+use std::sync::atomic::{fence, AtomicBool, Ordering};
 use std::sync::{Arc, Mutex, MutexGuard, RwLock, Weak};
 use std::time::{Duration, Instant};
 
@@ -512,8 +512,17 @@ impl Poller {
             }
 
             // Try to queue the update.
-            match self.pending_updates.push(packet) {
-                Ok(()) => return Ok(()),
+            let queued = packet.clone();
+            match self.pending_updates.push(queued) {
+                Ok(()) => {
+                    // If a wait began in the meantime, it may have drained the queue before we
+                    // pushed and will not look at it again until it returns.
+                    fence(Ordering::SeqCst);
+                    if self.polling.load(Ordering::SeqCst) {
+                        packet.update()?;
+                    }
+                    return Ok(());
+                }
                 Err(p) => packet = p.into_inner(),
             }
 
-- 
2.43.0


From 65643b19fcac2f76e10e89685e266e8eec4ea521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 08/27] fix: iocp: a deleted waitable stays deleted

The callback of a registered wait set the status to Idle whatever it was.
With the callback under way during remove_waitable(), that undid
`Cancelled`: the event was reported after the removal and the wait was
registered again, on a handle that may be closed by then. And between the
post and feed_event() the status was Idle, so that a modification started
a second wait and one signal was reported twice. An event whose interest
had been taken away was reported all the same, empty.
---
 src/iocp/mod.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index a7bc3bf..f0274a1 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -865,8 +865,13 @@ impl PacketUnwrapped {
                             None => return,
                         };
 
-                        // Set us back into the idle state.
-                        handle.status = WaitableStatus::Idle;
+                        // If we were deleted in the meantime, there is nobody to tell.
+                        if !matches!(handle.status, WaitableStatus::Waiting(_)) {
+                            return;
+                        }
+
+                        // Wait for the top-level loop to call feed_event().
+                        handle.status = WaitableStatus::Signaled;
 
                         // Push this packet.
                         drop(handle);
@@ -961,7 +966,20 @@ impl PacketUnwrapped {
             }
             PacketInnerProj::Waitable { handle } => {
                 let mut handle = lock!(handle.lock());
+
+                // If we were deleted while the packet was in the queue, don't report anything.
+                if matches!(handle.status, WaitableStatus::Cancelled) {
+                    return Ok(FeedEventResult::NoEvent);
+                }
+
+                // Set us back into the idle state.
+                handle.status = WaitableStatus::Idle;
+
+                // If the interest was taken away in the meantime, don't report anything.
                 let event = handle.interest;
+                if !event.readable && !event.writable {
+                    return Ok(FeedEventResult::NoEvent);
+                }
 
                 // Clear the events if we are in one-shot mode.
                 if matches!(handle.mode, PollMode::Oneshot) {
@@ -1177,6 +1195,9 @@ enum WaitableStatus {
     /// We are waiting on this handle to become signaled.
     Waiting(#[allow(dead_code)] WaitHandle),
 
+    /// The handle was signaled, and its packet is in the queue of the IOCP.
+    Signaled,
+
     /// This handle has been cancelled.
     Cancelled,
 }
-- 
2.43.0


From aa6515c476f82ff92f7614ffc739ac2fa22be90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 09/27] fix: iocp: a poll that AFD refused can be tried again

When NtDeviceIoControlFile failed, the packet stayed marked as in use and
one reference to it leaked. Every later attempt saw "packet is already in
use", took that for a pending operation, and the source was never
reported again.
---
 src/iocp/afd.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/iocp/afd.rs b/src/iocp/afd.rs
index 5445874..20a36b3 100644
--- a/src/iocp/afd.rs
+++ b/src/iocp/afd.rs
@@ -444,6 +444,8 @@ where
     ) -> io::Result<()> {
         const IOCTL_AFD_POLL: u32 = 0x00012024;
 
+        let ntdll = NtdllImports::get()?;
+
         // Lock the packet.
         if !packet.get().try_lock() {
             return Err(io::Error::new(
@@ -473,7 +475,6 @@ where
             (*iosb).Anonymous.Status = STATUS_PENDING;
         }
 
-        let ntdll = NtdllImports::get()?;
         let result = unsafe {
             ntdll.NtDeviceIoControlFile(
                 self.handle,
@@ -493,6 +494,14 @@ where
             STATUS_SUCCESS => Ok(()),
             STATUS_PENDING => Err(io::ErrorKind::WouldBlock.into()),
             status => {
+                // The operation was not started, so no packet will be queued for it. Take back
+                // the reference that it would have returned and allow the next attempt.
+                unsafe {
+                    (*iosb).Anonymous.Status = status;
+                    let packet = T::from_ptr(iosb.cast());
+                    packet.get().unlock();
+                }
+
                 let real_code = unsafe { ntdll.RtlNtStatusToDosError(status) };
 
                 Err(io::Error::from_raw_os_error(real_code as i32))
-- 
2.43.0


From a9e331b1bfad2e8cbf48dc4368189556869abc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 10/27] fix: iocp: a source whose registration failed is not
 registered

add() and add_waitable() left the source in the map when starting the poll
or the wait failed, so that the next attempt to add it was refused with
AlreadyExists, and the refused registration could come alive later.
---
 src/iocp/mod.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index f0274a1..0f9f6f7 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -48,6 +48,7 @@ use std::cell::UnsafeCell;
 use std::collections::hash_map::{Entry, HashMap};
 use std::ffi::c_void;
 use std::fmt;
+use std::hash::Hash;
 use std::io;
 use std::marker::PhantomPinned;
 use std::mem::{forget, MaybeUninit};
@@ -55,6 +56,7 @@ use std::os::windows::io::{
     AsHandle, AsRawHandle, AsRawSocket, BorrowedHandle, BorrowedSocket, RawHandle, RawSocket,
 };
 use std::pin::Pin;
+use std::ptr;
 use std::sync::atomic::{fence, AtomicBool, Ordering};
 use std::sync::{Arc, Mutex, MutexGuard, RwLock, Weak};
 use std::time::{Duration, Instant};
@@ -227,8 +229,11 @@ impl Poller {
             }
         }
 
-        // Update the packet.
-        self.update_packet(socket_state)
+        // Update the packet. If that fails, the source is not registered.
+        self.update_packet(socket_state.clone()).map_err(|e| {
+            remove_packet(&self.sources, socket, &socket_state);
+            e
+        })
     }
 
     /// Update a source in the poller.
@@ -352,8 +357,11 @@ impl Poller {
             }
         }
 
-        // Update the packet.
-        self.update_packet(handle_state)
+        // Update the packet. If that fails, the source is not registered.
+        self.update_packet(handle_state.clone()).map_err(|e| {
+            remove_packet(&self.waitables, handle, &handle_state);
+            e
+        })
     }
 
     /// Update a waitable in the poller.
@@ -603,6 +611,20 @@ impl Poller {
     }
 }
 
+/// Remove a packet that could not be registered from the map, unless another one has taken its
+/// place.
+fn remove_packet<K: Copy + Eq + Hash>(map: &RwLock<HashMap<K, Packet>>, key: K, packet: &Packet) {
+    let mut map = lock!(map.write());
+    if let Entry::Occupied(entry) = map.entry(key) {
+        if ptr::eq(&**entry.get(), &**packet) {
+            entry.remove();
+        }
+    }
+    drop(map);
+
+    packet.clone().begin_delete().ok();
+}
+
 impl AsRawHandle for Poller {
     fn as_raw_handle(&self) -> RawHandle {
         self.port.as_raw_handle()
-- 
2.43.0


From 6d72e7699e2880dc79ab3a747a87e48263baf4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 11/27] fix: iocp: an update that failed is tried again

wait() takes the pending updates out of the queue. If one failed, wait()
returned the error and the update was gone: the source was not polled any
more, and nothing but another modify() of it brought it back. Leave it in
the queue for the next wait, as wepoll does.
---
 src/iocp/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index 0f9f6f7..49b4327 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -555,7 +555,13 @@ impl Poller {
         self.pending_updates
             .try_iter()
             .take(max)
-            .try_for_each(|packet| packet.update())
+            .try_for_each(|packet| {
+                packet.clone().update().map_err(|e| {
+                    // Leave the packet in the queue, so that the update is tried again.
+                    self.pending_updates.push(packet).ok();
+                    e
+                })
+            })
     }
 
     /// Get a handle to the AFD reference.
-- 
2.43.0


From 571455d0bcc0443203e0e952e2b65cd17449cb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 12/27] fix: iocp: dropping a poller gives back what it holds

An operation in progress, and a completion nobody dequeued, hold a
reference to their packet and through it to the AFD handle. Dropping the
poller closed the port and left them behind: every poller that ever
polled a socket leaked its AFD handles and packets, even if all sources
had been deleted. Cancel what is in progress and empty the port.
---
 src/iocp/mod.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index 49b4327..b4e2e59 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -617,6 +617,25 @@ impl Poller {
     }
 }
 
+impl Drop for Poller {
+    fn drop(&mut self) {
+        // Cancel the operations that are still in progress.
+        let sources = lock!(self.sources.get_mut());
+        let waitables = lock!(self.waitables.get_mut());
+        for packet in sources.drain().map(|(_, packet)| packet) {
+            packet.begin_delete().ok();
+        }
+        for packet in waitables.drain().map(|(_, packet)| packet) {
+            packet.begin_delete().ok();
+        }
+
+        // An operation holds a reference to its packet, and through it to the AFD handle, until
+        // its completion is taken out of the port. So do packets that were posted.
+        let mut completions = Vec::with_capacity(64);
+        while let Ok(1..) = self.port.wait(&mut completions, Some(Duration::ZERO)) {}
+    }
+}
+
 /// Remove a packet that could not be registered from the map, unless another one has taken its
 /// place.
 fn remove_packet<K: Copy + Eq + Hash>(map: &RwLock<HashMap<K, Packet>>, key: K, packet: &Packet) {
-- 
2.43.0


From 087b074be52618b0ed9263c661229c095125e74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:36 +0000
Subject: [PATCH 13/27] fix: iocp: a timeout of 50 days or more ends

wait() slept for ever when its timeout was u32::MAX milliseconds or more.
The loop in wait() re-enters until the deadline, so cut one sleep short.
---
 src/iocp/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index b4e2e59..fc51e83 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -1401,8 +1401,9 @@ fn dur2timeout(dur: Duration) -> u32 {
     // have two pieces to take care of:
     //
     // * Nanosecond precision is rounded up
-    // * Greater than u32::MAX milliseconds (50 days) is rounded up to INFINITE
-    //   (never time out).
+    // * u32::MAX milliseconds (50 days) would mean INFINITE (never time out), so
+    //   this and anything above is cut to one less. The caller waits again until
+    //   its deadline.
     dur.as_secs()
         .checked_mul(1000)
         .and_then(|ms| ms.checked_add((dur.subsec_nanos() as u64) / 1_000_000))
@@ -1414,7 +1415,7 @@ fn dur2timeout(dur: Duration) -> u32 {
             }
         })
         .and_then(|x| u32::try_from(x).ok())
-        .unwrap_or(INFINITE)
+        .map_or(INFINITE - 1, |ms| ms.min(INFINITE - 1))
 }
 
 /// An error type that wraps around failing to open AFD.
-- 
2.43.0


From bfbe0148064fa7b7ad73b894a7b454f183ef2a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 14/27] fix: iocp: do not poll for errors nobody is interested
 in

With an interest in nothing, or in priority data only, an aborted socket
completed the poll at once; the event was filtered out and the poll started
again, so that wait() span without end. Errors are reported as readable and
writable, so ask for them only with one of the two.
---
 src/iocp/mod.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index fc51e83..76f25b6 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -200,7 +200,6 @@ impl Poller {
                 socket,
                 base_socket: base_socket(socket)?,
                 interest,
-                interest_error: true,
                 afd: self.afd_handle()?,
                 mode,
                 waiting_on_delete: false,
@@ -847,12 +846,11 @@ impl PacketUnwrapped {
                 let mut socket = lock!(socket.lock());
                 socket.interest = interest;
                 socket.mode = mode;
-                socket.interest_error = true;
 
                 // If there was a change, indicate that we need an update.
                 match socket.status {
                     SocketStatus::Polling { flags } => {
-                        let our_flags = event_to_afd_mask(socket.interest, socket.interest_error);
+                        let our_flags = event_to_afd_mask(socket.interest);
                         our_flags != flags
                     }
                     _ => true,
@@ -948,7 +946,7 @@ impl PacketUnwrapped {
             SocketStatus::Polling { flags } => {
                 // If we need to poll for events aside from what we are currently polling, we need
                 // to update the packet. Cancel the ongoing poll.
-                let our_flags = event_to_afd_mask(socket.interest, socket.interest_error);
+                let our_flags = event_to_afd_mask(socket.interest);
                 if our_flags != flags {
                     return self.cancel(socket);
                 }
@@ -965,7 +963,7 @@ impl PacketUnwrapped {
 
             SocketStatus::Idle => {
                 // Start a new poll.
-                let mask = event_to_afd_mask(socket.interest, socket.interest_error);
+                let mask = event_to_afd_mask(socket.interest);
                 let result = socket.afd.poll(self.clone(), socket.base_socket, mask);
 
                 match result {
@@ -1110,7 +1108,6 @@ impl PacketUnwrapped {
             // If we are in oneshot mode, remove the interest.
             if matches!(socket_state.mode, PollMode::Oneshot) {
                 socket_state.interest = Event::none(socket_state.interest.key);
-                socket_state.interest_error = false;
             }
 
             FeedEventResult::Event(event)
@@ -1182,9 +1179,6 @@ struct SocketState {
     /// The event that this socket is currently waiting on.
     interest: Event,
 
-    /// Whether to listen for error events.
-    interest_error: bool,
-
     /// The current poll mode.
     mode: PollMode,
 
@@ -1341,18 +1335,20 @@ impl WaitHandle {
 
 /// Translate an event to the mask expected by AFD.
 #[inline]
-fn event_to_afd_mask(event: Event, error: bool) -> afd::AfdPollMask {
-    event_properties_to_afd_mask(event.readable, event.writable, error) | event.extra.flags
+fn event_to_afd_mask(event: Event) -> afd::AfdPollMask {
+    event_properties_to_afd_mask(event.readable, event.writable) | event.extra.flags
 }
 
 /// Translate an event to the mask expected by AFD.
 #[inline]
-fn event_properties_to_afd_mask(readable: bool, writable: bool, error: bool) -> afd::AfdPollMask {
+fn event_properties_to_afd_mask(readable: bool, writable: bool) -> afd::AfdPollMask {
     use afd::AfdPollMask as AfdPoll;
 
     let mut mask = AfdPoll::empty();
 
-    if error || readable || writable {
+    // An error is reported as readable and writable. Where neither is of interest, asking for
+    // errors would only complete the poll again and again.
+    if readable || writable {
         mask |= AfdPoll::ABORT | AfdPoll::CONNECT_FAIL;
     }
 
-- 
2.43.0


From ca139f2ec87f9965fa0f76bce9b424df27b2abc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 15/27] fix: a failed notify() does not swallow the next one

notify() set the flag before the backend failed to deliver the notification
and left it set, so every later notify() returned Ok without waking anybody
until some wait() happened to return.
---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 456e43d..f90fad0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -803,7 +803,11 @@ impl Poller {
             .compare_exchange(false, true, Ordering::SeqCst, Ordering::SeqCst)
             .is_ok()
         {
-            self.poller.notify()?;
+            self.poller.notify().map_err(|e| {
+                // Nobody was woken up, so let the next call try again.
+                self.notified.store(false, Ordering::SeqCst);
+                e
+            })?;
         }
         Ok(())
     }
-- 
2.43.0


From 5c2b82c279200ef7a7e0506c436590b34525772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:32 +0000
Subject: [PATCH 16/27] fix: iocp: do not take delivered conditions for
 requested ones

An Event delivered by wait carries the AFD flags it was delivered with.
Passing that event, changed, to add or modify ORed them into the poll, so
that conditions nobody asked for were delivered, with an event that was
neither readable nor writable.
---
 src/iocp/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index 76f25b6..5cbd8d5 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -713,6 +713,14 @@ impl EventExtra {
         }
     }
 
+    /// The flags that can be asked for.
+    ///
+    /// An event that was delivered has others as well, and may be used as an interest again.
+    #[inline]
+    fn interest(&self) -> AfdPollMask {
+        self.flags & (AfdPollMask::ABORT | AfdPollMask::RECEIVE_EXPEDITED)
+    }
+
     /// Is this a HUP event?
     #[inline]
     pub fn is_hup(&self) -> bool {
@@ -1103,7 +1111,7 @@ impl PacketUnwrapped {
             || event
                 .extra
                 .flags
-                .intersects(socket_state.interest.extra.flags)
+                .intersects(socket_state.interest.extra.interest())
         {
             // If we are in oneshot mode, remove the interest.
             if matches!(socket_state.mode, PollMode::Oneshot) {
@@ -1336,7 +1344,7 @@ impl WaitHandle {
 /// Translate an event to the mask expected by AFD.
 #[inline]
 fn event_to_afd_mask(event: Event) -> afd::AfdPollMask {
-    event_properties_to_afd_mask(event.readable, event.writable) | event.extra.flags
+    event_properties_to_afd_mask(event.readable, event.writable) | event.extra.interest()
 }
 
 /// Translate an event to the mask expected by AFD.
-- 
2.43.0


From 2fcf68c009ff214a75e756bf51f96a03deea97f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 17/27] fix: iocp: give back what a refused call was given

PostQueuedCompletionStatus and RegisterWaitForSingleObject do not keep the
packet and the callback when they fail, and both leaked. When the callback
of a wait could not post, the waitable was taken for busy ever after.
---
 src/iocp/mod.rs  | 16 ++++++++++++----
 src/iocp/port.rs | 24 +++++++++++++-----------
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index 5cbd8d5..6137b49 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -927,9 +927,11 @@ impl PacketUnwrapped {
                         handle.status = WaitableStatus::Signaled;
 
                         // Push this packet.
-                        drop(handle);
-                        if let Err(e) = iocp.post(0, 0, packet) {
+                        if let Err(e) = iocp.post(0, 0, packet.clone()) {
                             tracing::error!("failed to post completion packet: {}", e);
+
+                            // Nobody will feed the packet, so let the next update start over.
+                            handle.status = WaitableStatus::Idle;
                         }
                     },
                     None,
@@ -1315,6 +1317,7 @@ impl WaitHandle {
         }
 
         let mut wait_handle = MaybeUninit::<RawHandle>::uninit();
+        let context = Box::into_raw(Box::new(callback));
 
         let mut flags = WT_EXECUTEONLYONCE;
         if long_wait {
@@ -1326,14 +1329,19 @@ impl WaitHandle {
                 wait_handle.as_mut_ptr().cast::<_>(),
                 handle as _,
                 Some(wait_callback::<F>),
-                Box::into_raw(Box::new(callback)) as _,
+                context as _,
                 timeout.map_or(INFINITE, dur2timeout),
                 flags,
             )
         };
 
         if res == 0 {
-            return Err(io::Error::last_os_error());
+            let error = io::Error::last_os_error();
+
+            // The callback is not going to be called.
+            drop(unsafe { Box::from_raw(context) });
+
+            return Err(error);
         }
 
         let wait_handle = unsafe { wait_handle.assume_init() };
diff --git a/src/iocp/port.rs b/src/iocp/port.rs
index f710c3a..836b5f3 100644
--- a/src/iocp/port.rs
+++ b/src/iocp/port.rs
@@ -197,19 +197,21 @@ impl<T: CompletionHandle> IoCompletionPort<T> {
 
     /// Post a completion packet to this port.
     pub(super) fn post(&self, bytes_transferred: usize, id: usize, packet: T) -> io::Result<()> {
-        let result = unsafe {
-            PostQueuedCompletionStatus(
-                self.handle,
-                bytes_transferred
-                    .try_into()
-                    .expect("too many bytes transferred"),
-                id,
-                T::into_ptr(packet),
-            )
-        };
+        let bytes_transferred = bytes_transferred
+            .try_into()
+            .expect("too many bytes transferred");
+        let packet = T::into_ptr(packet);
+
+        let result =
+            unsafe { PostQueuedCompletionStatus(self.handle, bytes_transferred, id, packet) };
 
         if result == 0 {
-            Err(io::Error::last_os_error())
+            let error = io::Error::last_os_error();
+
+            // The packet was not queued, so nobody will take it out again.
+            drop(unsafe { T::from_ptr(packet) });
+
+            Err(error)
         } else {
             Ok(())
         }
-- 
2.43.0


From 4ddd1d203c7861640e0ed13e32544c476b449798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:01 +0000
Subject: [PATCH 18/27] fix: iocp: free the callback of a wait that is
 unregistered before it is called

A WaitHandle that was dropped before the waited-for handle became signaled
unregistered the wait and leaked the callback, and with it the packet.
---
 src/iocp/mod.rs | 49 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index 6137b49..04fe638 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -1274,12 +1274,26 @@ enum FeedEventResult {
 
 /// A handle for an ongoing wait operation.
 #[derive(Debug)]
-struct WaitHandle(RawHandle);
+struct WaitHandle {
+    /// The handle of the wait.
+    handle: RawHandle,
+
+    /// The context of the callback, and how to free it.
+    context: *mut c_void,
+    free_context: unsafe fn(*mut c_void),
+
+    /// Whether the callback was called, which then frees the context.
+    called: Arc<AtomicBool>,
+}
 
 impl Drop for WaitHandle {
     fn drop(&mut self) {
-        unsafe {
-            UnregisterWait(self.0 as _);
+        // This fails when the callback is running or is still going to run.
+        let res = unsafe { UnregisterWait(self.handle as _) };
+
+        if res != 0 && !self.called.load(Ordering::SeqCst) {
+            // The callback is not going to be called.
+            unsafe { (self.free_context)(self.context) };
         }
     }
 }
@@ -1304,20 +1318,35 @@ impl WaitHandle {
             }
         }
 
+        /// What the callback is given.
+        struct Context<F> {
+            called: Arc<AtomicBool>,
+            callback: F,
+        }
+
         unsafe extern "system" fn wait_callback<F: FnOnce() + Send + Sync + 'static>(
             context: *mut c_void,
             _timer_fired: BOOLEAN,
         ) {
             let _guard = AbortOnDrop;
-            let callback = Box::from_raw(context as *mut F);
-            callback();
+            let context = Box::from_raw(context as *mut Context<F>);
+            context.called.store(true, Ordering::SeqCst);
+            (context.callback)();
 
             // We executed without panicking, so don't abort.
             forget(_guard);
         }
 
+        unsafe fn free_context<F>(context: *mut c_void) {
+            drop(Box::from_raw(context as *mut Context<F>));
+        }
+
         let mut wait_handle = MaybeUninit::<RawHandle>::uninit();
-        let context = Box::into_raw(Box::new(callback));
+        let called = Arc::new(AtomicBool::new(false));
+        let context = Box::into_raw(Box::new(Context {
+            called: called.clone(),
+            callback,
+        }));
 
         let mut flags = WT_EXECUTEONLYONCE;
         if long_wait {
@@ -1344,8 +1373,12 @@ impl WaitHandle {
             return Err(error);
         }
 
-        let wait_handle = unsafe { wait_handle.assume_init() };
-        Ok(Self(wait_handle))
+        Ok(Self {
+            handle: unsafe { wait_handle.assume_init() },
+            context: context as *mut c_void,
+            free_context: free_context::<F>,
+            called,
+        })
     }
 }
 
-- 
2.43.0


From 36c89956d18ca90430d89f1221f0b391ccfb6390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:59 +0000
Subject: [PATCH 19/27] fix: kqueue: keep the set of sources and the kernel in
 step

A delete() racing with a modify() could leave the source armed in the
kernel although it is not registered any longer, two racing modify()
calls could each win for one of the two filters, and a call to add() or
add_filter() that the kernel refused left the source in the set, so that
adding it again failed with AlreadyExists.
---
 src/kqueue.rs    | 162 ++++++++++++++++++++++++-----------------------
 src/os/kqueue.rs |  15 ++---
 2 files changed, 91 insertions(+), 86 deletions(-)

diff --git a/src/kqueue.rs b/src/kqueue.rs
index 860bc5a..7c5e43e 100644
--- a/src/kqueue.rs
+++ b/src/kqueue.rs
@@ -3,7 +3,7 @@
 use std::collections::HashSet;
 use std::io;
 use std::os::unix::io::{AsFd, AsRawFd, BorrowedFd, OwnedFd, RawFd};
-use std::sync::RwLock;
+use std::sync::{Mutex, MutexGuard};
 use std::time::Duration;
 
 use rustix::event::kqueue;
@@ -19,8 +19,9 @@ pub struct Poller {
 
     /// List of sources currently registered in this poller.
     ///
-    /// This is used to make sure the same source is not registered twice.
-    sources: RwLock<HashSet<SourceId>>,
+    /// This is used to make sure the same source is not registered twice. It is locked until the
+    /// changes are made in the kernel, so that concurrent calls cannot leave the two at odds.
+    sources: Mutex<HashSet<SourceId>>,
 
     /// Notification pipe for waking up the poller.
     ///
@@ -55,7 +56,7 @@ impl Poller {
 
         let poller = Poller {
             kqueue_fd,
-            sources: RwLock::new(HashSet::new()),
+            sources: Mutex::new(HashSet::new()),
             notify: notify::Notify::new()?,
         };
 
@@ -85,10 +86,12 @@ impl Poller {
     ///
     /// The file descriptor must be valid and it must last until it is deleted.
     pub unsafe fn add(&self, fd: RawFd, ev: Event, mode: PollMode) -> io::Result<()> {
-        self.add_source(SourceId::Fd(fd))?;
-
-        // File descriptors don't need to be added explicitly, so just modify the interest.
-        self.modify(BorrowedFd::borrow_raw(fd), ev, mode)
+        let fd = BorrowedFd::borrow_raw(fd);
+        self.add_source(
+            SourceId::Fd(fd.as_raw_fd()),
+            fd_changes(fd, ev, mode),
+            fd_changes(fd, Event::none(0), mode),
+        )
     }
 
     /// Modifies an existing file descriptor.
@@ -106,37 +109,7 @@ impl Poller {
         };
         let _enter = span.as_ref().map(|s| s.enter());
 
-        self.has_source(SourceId::Fd(fd.as_raw_fd()))?;
-
-        let mode_flags = mode_to_flags(mode);
-
-        let read_flags = if ev.readable {
-            kqueue::EventFlags::ADD | mode_flags
-        } else {
-            kqueue::EventFlags::DELETE
-        };
-        let write_flags = if ev.writable {
-            kqueue::EventFlags::ADD | mode_flags
-        } else {
-            kqueue::EventFlags::DELETE
-        };
-
-        // A list of changes for kqueue.
-        let changelist = [
-            kqueue::Event::new(
-                kqueue::EventFilter::Read(fd.as_raw_fd()),
-                read_flags | kqueue::EventFlags::RECEIPT,
-                ev.key as _,
-            ),
-            kqueue::Event::new(
-                kqueue::EventFilter::Write(fd.as_raw_fd()),
-                write_flags | kqueue::EventFlags::RECEIPT,
-                ev.key as _,
-            ),
-        ];
-
-        // Apply changes.
-        self.submit_changes(changelist)
+        self.modify_source(SourceId::Fd(fd.as_raw_fd()), fd_changes(fd, ev, mode))
     }
 
     /// Submit one or more changes to the kernel queue and check to see if they succeeded.
@@ -172,57 +145,60 @@ impl Poller {
         Ok(())
     }
 
-    /// Add a source to the sources set.
-    #[inline]
-    pub(crate) fn add_source(&self, source: SourceId) -> io::Result<()> {
-        if self
-            .sources
-            .write()
-            .unwrap_or_else(|e| e.into_inner())
-            .insert(source)
-        {
-            Ok(())
-        } else {
-            Err(io::Error::from(io::ErrorKind::AlreadyExists))
+    fn sources(&self) -> MutexGuard<'_, HashSet<SourceId>> {
+        self.sources.lock().unwrap_or_else(|e| e.into_inner())
+    }
+
+    /// Add a source and make `changes`; if that fails, `undo` them.
+    pub(crate) fn add_source<A>(&self, source: SourceId, changes: A, undo: A) -> io::Result<()>
+    where
+        A: Copy + AsRef<[kqueue::Event]> + AsMut<[kqueue::Event]>,
+    {
+        let mut sources = self.sources();
+        if sources.contains(&source) {
+            return Err(io::Error::from(io::ErrorKind::AlreadyExists));
         }
+        if let Err(e) = self.submit_changes(changes) {
+            let _ = self.submit_changes(undo);
+            return Err(e);
+        }
+        sources.insert(source);
+        Ok(())
     }
 
-    /// Tell if a source is currently inside the set.
-    #[inline]
-    pub(crate) fn has_source(&self, source: SourceId) -> io::Result<()> {
-        if self
-            .sources
-            .read()
-            .unwrap_or_else(|e| e.into_inner())
-            .contains(&source)
-        {
-            Ok(())
-        } else {
-            Err(io::Error::from(io::ErrorKind::NotFound))
+    /// Make changes to a source that was added.
+    pub(crate) fn modify_source<A>(&self, source: SourceId, changes: A) -> io::Result<()>
+    where
+        A: Copy + AsRef<[kqueue::Event]> + AsMut<[kqueue::Event]>,
+    {
+        let sources = self.sources();
+        if !sources.contains(&source) {
+            return Err(io::Error::from(io::ErrorKind::NotFound));
         }
+        self.submit_changes(changes)
     }
 
-    /// Remove a source from the sources set.
-    #[inline]
-    pub(crate) fn remove_source(&self, source: SourceId) -> io::Result<()> {
-        if self
-            .sources
-            .write()
-            .unwrap_or_else(|e| e.into_inner())
-            .remove(&source)
-        {
-            Ok(())
-        } else {
-            Err(io::Error::from(io::ErrorKind::NotFound))
+    /// Make `changes` that remove a source, and remove it.
+    pub(crate) fn remove_source<A>(&self, source: SourceId, changes: A) -> io::Result<()>
+    where
+        A: Copy + AsRef<[kqueue::Event]> + AsMut<[kqueue::Event]>,
+    {
+        let mut sources = self.sources();
+        if !sources.contains(&source) {
+            return Err(io::Error::from(io::ErrorKind::NotFound));
         }
+        self.submit_changes(changes)?;
+        sources.remove(&source);
+        Ok(())
     }
 
     /// Deletes a file descriptor.
     pub fn delete(&self, fd: BorrowedFd<'_>) -> io::Result<()> {
         // Simply delete interest in the file descriptor.
-        self.modify(fd, Event::none(0), PollMode::Oneshot)?;
-
-        self.remove_source(SourceId::Fd(fd.as_raw_fd()))
+        self.remove_source(
+            SourceId::Fd(fd.as_raw_fd()),
+            fd_changes(fd, Event::none(0), PollMode::Oneshot),
+        )
     }
 
     /// Waits for I/O events with an optional timeout.
@@ -383,6 +359,36 @@ impl EventExtra {
     }
 }
 
+/// The changes that set the interest in a file descriptor.
+fn fd_changes(fd: BorrowedFd<'_>, ev: Event, mode: PollMode) -> [kqueue::Event; 2] {
+    let mode_flags = mode_to_flags(mode);
+
+    let read_flags = if ev.readable {
+        kqueue::EventFlags::ADD | mode_flags
+    } else {
+        kqueue::EventFlags::DELETE
+    };
+    let write_flags = if ev.writable {
+        kqueue::EventFlags::ADD | mode_flags
+    } else {
+        kqueue::EventFlags::DELETE
+    };
+
+    // A list of changes for kqueue.
+    [
+        kqueue::Event::new(
+            kqueue::EventFilter::Read(fd.as_raw_fd()),
+            read_flags | kqueue::EventFlags::RECEIPT,
+            ev.key as _,
+        ),
+        kqueue::Event::new(
+            kqueue::EventFilter::Write(fd.as_raw_fd()),
+            write_flags | kqueue::EventFlags::RECEIPT,
+            ev.key as _,
+        ),
+    ]
+}
+
 pub(crate) fn mode_to_flags(mode: PollMode) -> kqueue::EventFlags {
     use kqueue::EventFlags as EV;
 
diff --git a/src/os/kqueue.rs b/src/os/kqueue.rs
index 5045cb4..bdb50a8 100644
--- a/src/os/kqueue.rs
+++ b/src/os/kqueue.rs
@@ -99,18 +99,19 @@ impl<F: Filter> PollerKqueueExt<F> for Poller {
     #[inline(always)]
     fn add_filter(&self, filter: F, key: usize, mode: PollMode) -> io::Result<()> {
         // No difference between adding and modifying in kqueue.
-        self.poller.add_source(filter.source_id())?;
-        self.modify_filter(filter, key, mode)
+        self.poller.add_source(
+            filter.source_id(),
+            [filter.filter(kqueue::EventFlags::ADD | mode_to_flags(mode), key)],
+            [filter.filter(kqueue::EventFlags::DELETE, 0)],
+        )
     }
 
     fn modify_filter(&self, filter: F, key: usize, mode: PollMode) -> io::Result<()> {
-        self.poller.has_source(filter.source_id())?;
-
         // Convert the filter into a kevent.
         let event = filter.filter(kqueue::EventFlags::ADD | mode_to_flags(mode), key);
 
         // Modify the filter.
-        self.poller.submit_changes([event])
+        self.poller.modify_source(filter.source_id(), [event])
     }
 
     fn delete_filter(&self, filter: F) -> io::Result<()> {
@@ -118,9 +119,7 @@ impl<F: Filter> PollerKqueueExt<F> for Poller {
         let event = filter.filter(kqueue::EventFlags::DELETE, 0);
 
         // Delete the filter.
-        self.poller.submit_changes([event])?;
-
-        self.poller.remove_source(filter.source_id())
+        self.poller.remove_source(filter.source_id(), [event])
     }
 }
 
-- 
2.43.0


From 68cf0f165198abdb1d0fba04fdc807df72ef93c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:00 +0000
Subject: [PATCH 20/27] fix: kqueue: modify() changes the mode of a source that
 is armed

The kernel ignores EV_ONESHOT and EV_CLEAR in EV_ADD for a filter that
exists already.
---
 src/kqueue.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kqueue.rs b/src/kqueue.rs
index 7c5e43e..c5bea33 100644
--- a/src/kqueue.rs
+++ b/src/kqueue.rs
@@ -109,7 +109,13 @@ impl Poller {
         };
         let _enter = span.as_ref().map(|s| s.enter());
 
-        self.modify_source(SourceId::Fd(fd.as_raw_fd()), fd_changes(fd, ev, mode))
+        // Filters that exist keep the mode they were added with, so remove them first.
+        let [delete_read, delete_write] = fd_changes(fd, Event::none(0), mode);
+        let [read, write] = fd_changes(fd, ev, mode);
+        self.modify_source(
+            SourceId::Fd(fd.as_raw_fd()),
+            [delete_read, read, delete_write, write],
+        )
     }
 
     /// Submit one or more changes to the kernel queue and check to see if they succeeded.
-- 
2.43.0


From 244f46dcea91ddc5f00c59428b805ecd1849070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 21/27] fix: refuse the key of notifications for kqueue filters
 and Windows waitables

Their events were dropped silently.
---
 src/os/iocp.rs   | 13 +++++++++++++
 src/os/kqueue.rs | 15 +++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/os/iocp.rs b/src/os/iocp.rs
index 3370118..836218c 100644
--- a/src/os/iocp.rs
+++ b/src/os/iocp.rs
@@ -193,6 +193,17 @@ pub trait PollerIocpExt: PollerSealed {
     fn remove_waitable(&self, handle: impl AsWaitable) -> io::Result<()>;
 }
 
+/// The key of notifications is not allowed, here as well.
+fn check_key(key: usize) -> io::Result<()> {
+    if key == crate::NOTIFY_KEY {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "the key is not allowed to be `usize::MAX`",
+        ));
+    }
+    Ok(())
+}
+
 impl PollerIocpExt for Poller {
     fn post(&self, packet: CompletionPacket) -> io::Result<()> {
         self.poller.post(packet)
@@ -204,6 +215,7 @@ impl PollerIocpExt for Poller {
         event: Event,
         mode: PollMode,
     ) -> io::Result<()> {
+        check_key(event.key)?;
         self.poller
             .add_waitable(handle.as_raw_handle(), event, mode)
     }
@@ -214,6 +226,7 @@ impl PollerIocpExt for Poller {
         interest: Event,
         mode: PollMode,
     ) -> io::Result<()> {
+        check_key(interest.key)?;
         self.poller
             .modify_waitable(handle.as_waitable().as_raw_handle(), interest, mode)
     }
diff --git a/src/os/kqueue.rs b/src/os/kqueue.rs
index bdb50a8..0a07a40 100644
--- a/src/os/kqueue.rs
+++ b/src/os/kqueue.rs
@@ -95,9 +95,22 @@ pub trait PollerKqueueExt<F: Filter>: PollerSealed {
     fn delete_filter(&self, filter: F) -> io::Result<()>;
 }
 
+/// The key of notifications is not allowed, here as well.
+fn check_key(key: usize) -> io::Result<()> {
+    if key == crate::NOTIFY_KEY {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "the key is not allowed to be `usize::MAX`",
+        ));
+    }
+    Ok(())
+}
+
 impl<F: Filter> PollerKqueueExt<F> for Poller {
     #[inline(always)]
     fn add_filter(&self, filter: F, key: usize, mode: PollMode) -> io::Result<()> {
+        check_key(key)?;
+
         // No difference between adding and modifying in kqueue.
         self.poller.add_source(
             filter.source_id(),
@@ -107,6 +120,8 @@ impl<F: Filter> PollerKqueueExt<F> for Poller {
     }
 
     fn modify_filter(&self, filter: F, key: usize, mode: PollMode) -> io::Result<()> {
+        check_key(key)?;
+
         // Convert the filter into a kevent.
         let event = filter.filter(kqueue::EventFlags::ADD | mode_to_flags(mode), key);
 
-- 
2.43.0


From ee546f96764921d402cfd4f09e9992bc63f42bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 22/27] fix: event ports: an interest in priority data or
 hang-ups alone was ignored

---
 src/port.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/port.rs b/src/port.rs
index 57e0ed2..3eedb08 100644
--- a/src/port.rs
+++ b/src/port.rs
@@ -69,6 +69,12 @@ impl Poller {
         if ev.writable {
             flags |= write_flags();
         }
+        if ev.extra.is_hup() {
+            flags |= PollFlags::HUP;
+        }
+        if ev.extra.is_pri() {
+            flags |= PollFlags::PRI;
+        }
 
         if mode != PollMode::Oneshot {
             return Err(crate::unsupported_error(
-- 
2.43.0


From 09cc1ba7194bb329cbfa52f92e2952be1e33cef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:02 +0000
Subject: [PATCH 23/27] fix: hermit: the eventfd for notifications was blocking

---
 src/poll.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index a6fe2c6..bfc396e 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -504,9 +504,11 @@ mod syscall {
 
     pub(super) use std::os::hermit::io::{AsFd, AsRawFd, BorrowedFd, FromRawFd, OwnedFd, RawFd};
 
-    /// Create an eventfd.
+    /// Create an eventfd in non-blocking mode.
+    ///
+    /// Notifications are removed from it without knowing whether there are any.
     pub(super) fn eventfd(count: u64, _flags: EventfdFlags) -> io::Result<OwnedFd> {
-        let fd = unsafe { hermit_abi::eventfd(count, 0) };
+        let fd = unsafe { hermit_abi::eventfd(count, hermit_abi::EFD_NONBLOCK) };
 
         if fd < 0 {
             Err(io::Error::from_raw_os_error(unsafe {
-- 
2.43.0


From dd45227da84972b414bbe3b6a9ed5bf7db1cb64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:08 +0000
Subject: [PATCH 24/27] fix: vita: removing a notification could block for ever

---
 src/poll.rs | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/poll.rs b/src/poll.rs
index bfc396e..59250c8 100644
--- a/src/poll.rs
+++ b/src/poll.rs
@@ -669,6 +669,8 @@ mod notify {
     #[cfg(not(target_os = "haiku"))]
     use rustix::pipe::pipe_with;
     use rustix::pipe::{pipe, PipeFlags};
+    #[cfg(target_os = "vita")]
+    use std::sync::atomic::{AtomicIsize, Ordering};
 
     /// A notification pipe.
     ///
@@ -684,6 +686,10 @@ mod notify {
         /// user notifies it (in which case `Poller::notified` would have been set) or when an operation needs
         /// to occur (in which case `Poller::waiting_operations` would have been incremented).
         write_pipe: OwnedFd,
+        /// The number of notifications that were written to the pipe but not read yet. It may lag
+        /// behind what was written.
+        #[cfg(target_os = "vita")]
+        unread: AtomicIsize,
     }
 
     impl Notify {
@@ -708,6 +714,8 @@ mod notify {
             Ok(Self {
                 read_pipe,
                 write_pipe,
+                #[cfg(target_os = "vita")]
+                unread: AtomicIsize::new(0),
             })
         }
 
@@ -725,6 +733,9 @@ mod notify {
         pub(super) fn notify(&self) -> Result<(), io::Error> {
             write(&self.write_pipe, &[0; 1])?;
 
+            #[cfg(target_os = "vita")]
+            self.unread.fetch_add(1, Ordering::SeqCst);
+
             Ok(())
         }
 
@@ -733,12 +744,19 @@ mod notify {
             // Pipes on Vita do not guarantee that after `write` call succeeds, the
             // data becomes immediately available for reading on the other side of the pipe.
             // To ensure that the notification is not lost, the read side of the pipe is temporarily
-            // switched to blocking for a single `read` call.
+            // switched to blocking for a single `read` call. That is only done if there is something
+            // to read for certain: `pop_all_notifications` may have removed it.
             #[cfg(target_os = "vita")]
-            rustix::fs::fcntl_setfl(
-                &self.read_pipe,
-                rustix::fs::fcntl_getfl(&self.read_pipe)? & !rustix::fs::OFlags::NONBLOCK,
-            )?;
+            {
+                if self.unread.load(Ordering::SeqCst) <= 0 {
+                    return Err(io::ErrorKind::WouldBlock.into());
+                }
+
+                rustix::fs::fcntl_setfl(
+                    &self.read_pipe,
+                    rustix::fs::fcntl_getfl(&self.read_pipe)? & !rustix::fs::OFlags::NONBLOCK,
+                )?;
+            }
 
             let result = read(&self.read_pipe, &mut [0; 1]);
 
@@ -750,12 +768,18 @@ mod notify {
 
             result?;
 
+            #[cfg(target_os = "vita")]
+            self.unread.fetch_sub(1, Ordering::SeqCst);
+
             Ok(())
         }
 
         /// Pops all notifications from the pipe.
         pub(super) fn pop_all_notifications(&self) -> Result<(), io::Error> {
-            while read(&self.read_pipe, &mut [0; 64]).is_ok() {}
+            while let Ok(_count) = read(&self.read_pipe, &mut [0; 64]) {
+                #[cfg(target_os = "vita")]
+                self.unread.fetch_sub(_count as isize, Ordering::SeqCst);
+            }
 
             Ok(())
         }
-- 
2.43.0


From e32390c76232581e3d8b732a52939f809c5f38fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:24 +0000
Subject: [PATCH 25/27] fix: a notify() that fails takes no concurrent one with
 it

A notify() that found the flag set by another thread returned Ok, although
that thread's attempt to wake up the poller could still fail, and nobody was
woken up.
---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index f90fad0..7bada98 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -435,6 +435,8 @@ pub struct Poller {
     poller: sys::Poller,
     lock: Mutex<()>,
     notified: AtomicBool,
+    /// Held while a notification is being sent.
+    sending: Mutex<()>,
 }
 
 impl Poller {
@@ -453,6 +455,7 @@ impl Poller {
             poller: sys::Poller::new()?,
             lock: Mutex::new(()),
             notified: AtomicBool::new(false),
+            sending: Mutex::new(()),
         })
     }
 
@@ -798,6 +801,9 @@ impl Poller {
         let span = tracing::trace_span!("Poller::notify");
         let _enter = span.enter();
 
+        // Sending may fail, so don't rely on what another thread is still sending.
+        let _sending = self.sending.lock().unwrap();
+
         if self
             .notified
             .compare_exchange(false, true, Ordering::SeqCst, Ordering::SeqCst)
-- 
2.43.0


From e58e352c9b08d0506eefa863d97b8690ddbbf5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:53 +0000
Subject: [PATCH 26/27] fix: iocp: a source is in the table only once its
 addition cannot fail

---
 src/iocp/mod.rs | 85 ++++++++++++++++++++-----------------------------
 1 file changed, 35 insertions(+), 50 deletions(-)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index 04fe638..c8d7dba 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -48,7 +48,6 @@ use std::cell::UnsafeCell;
 use std::collections::hash_map::{Entry, HashMap};
 use std::ffi::c_void;
 use std::fmt;
-use std::hash::Hash;
 use std::io;
 use std::marker::PhantomPinned;
 use std::mem::{forget, MaybeUninit};
@@ -56,7 +55,6 @@ use std::os::windows::io::{
     AsHandle, AsRawHandle, AsRawSocket, BorrowedHandle, BorrowedSocket, RawHandle, RawSocket,
 };
 use std::pin::Pin;
-use std::ptr;
 use std::sync::atomic::{fence, AtomicBool, Ordering};
 use std::sync::{Arc, Mutex, MutexGuard, RwLock, Weak};
 use std::time::{Duration, Instant};
@@ -214,25 +212,23 @@ impl Poller {
         };
 
         // Keep track of the source in the poller.
-        {
-            let mut sources = lock!(self.sources.write());
-
-            match sources.entry(socket) {
-                Entry::Vacant(v) => {
-                    v.insert(Pin::<Arc<_>>::clone(&socket_state));
+        let mut sources = lock!(self.sources.write());
+
+        match sources.entry(socket) {
+            Entry::Vacant(v) => {
+                // Update the packet. If that fails, the source is not registered, and nobody has
+                // seen it registered.
+                if let Err(e) = self.update_packet(socket_state.clone()) {
+                    socket_state.begin_delete().ok();
+                    return Err(e);
                 }
 
-                Entry::Occupied(_) => {
-                    return Err(io::Error::from(io::ErrorKind::AlreadyExists));
-                }
+                v.insert(socket_state);
+                Ok(())
             }
-        }
 
-        // Update the packet. If that fails, the source is not registered.
-        self.update_packet(socket_state.clone()).map_err(|e| {
-            remove_packet(&self.sources, socket, &socket_state);
-            e
-        })
+            Entry::Occupied(_) => Err(io::Error::from(io::ErrorKind::AlreadyExists)),
+        }
     }
 
     /// Update a source in the poller.
@@ -342,25 +338,23 @@ impl Poller {
         };
 
         // Keep track of the source in the poller.
-        {
-            let mut sources = lock!(self.waitables.write());
-
-            match sources.entry(handle) {
-                Entry::Vacant(v) => {
-                    v.insert(Pin::<Arc<_>>::clone(&handle_state));
+        let mut sources = lock!(self.waitables.write());
+
+        match sources.entry(handle) {
+            Entry::Vacant(v) => {
+                // Update the packet. If that fails, the source is not registered, and nobody has
+                // seen it registered.
+                if let Err(e) = self.update_packet(handle_state.clone()) {
+                    handle_state.begin_delete().ok();
+                    return Err(e);
                 }
 
-                Entry::Occupied(_) => {
-                    return Err(io::Error::from(io::ErrorKind::AlreadyExists));
-                }
+                v.insert(handle_state);
+                Ok(())
             }
-        }
 
-        // Update the packet. If that fails, the source is not registered.
-        self.update_packet(handle_state.clone()).map_err(|e| {
-            remove_packet(&self.waitables, handle, &handle_state);
-            e
-        })
+            Entry::Occupied(_) => Err(io::Error::from(io::ErrorKind::AlreadyExists)),
+        }
     }
 
     /// Update a waitable in the poller.
@@ -635,20 +629,6 @@ impl Drop for Poller {
     }
 }
 
-/// Remove a packet that could not be registered from the map, unless another one has taken its
-/// place.
-fn remove_packet<K: Copy + Eq + Hash>(map: &RwLock<HashMap<K, Packet>>, key: K, packet: &Packet) {
-    let mut map = lock!(map.write());
-    if let Entry::Occupied(entry) = map.entry(key) {
-        if ptr::eq(&**entry.get(), &**packet) {
-            entry.remove();
-        }
-    }
-    drop(map);
-
-    packet.clone().begin_delete().ok();
-}
-
 impl AsRawHandle for Poller {
     fn as_raw_handle(&self) -> RawHandle {
         self.port.as_raw_handle()
@@ -1086,10 +1066,15 @@ impl PacketUnwrapped {
 
                         // If we closed the socket, remove it from being polled.
                         if events.intersects(AfdPollMask::LOCAL_CLOSE) {
-                            let source = lock!(poller.sources.write())
-                                .remove(&socket_state.socket)
-                                .unwrap();
-                            return source.begin_delete().map(|()| FeedEventResult::NoEvent);
+                            // A call that holds the map may be waiting for our state.
+                            let socket = socket_state.socket;
+                            drop(socket_state);
+
+                            let source = lock!(poller.sources.write()).remove(&socket);
+                            if let Some(source) = source {
+                                source.begin_delete()?;
+                            }
+                            return Ok(FeedEventResult::NoEvent);
                         }
 
                         // Report socket-related events.
-- 
2.43.0


From 5388b6570ea4109fa732fc92874ef61868ead12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:54 +0000
Subject: [PATCH 27/27] fix: iocp: a full update queue loses neither events nor
 updates

---
 src/iocp/mod.rs | 91 ++++++++++++++++++++++++++-----------------------
 1 file changed, 48 insertions(+), 43 deletions(-)

diff --git a/src/iocp/mod.rs b/src/iocp/mod.rs
index c8d7dba..fc41213 100644
--- a/src/iocp/mod.rs
+++ b/src/iocp/mod.rs
@@ -101,6 +101,9 @@ pub(super) struct Poller {
     /// updating them as we come. If we're waiting on the IOCP updates should be run immediately.
     pending_updates: ConcurrentQueue<Packet>,
 
+    /// Packets whose update failed, for the next wait to try again.
+    failed_updates: Mutex<Vec<Packet>>,
+
     /// Are we currently polling?
     ///
     /// This indicates whether or not we are blocking on the IOCP, and is used to determine
@@ -144,6 +147,7 @@ impl Poller {
             sources: RwLock::new(HashMap::new()),
             waitables: RwLock::new(HashMap::new()),
             pending_updates: ConcurrentQueue::bounded(1024),
+            failed_updates: Mutex::new(Vec::new()),
             polling: AtomicBool::new(false),
             notifier: Arc::pin(
                 PacketInner::Wakeup {
@@ -447,7 +451,7 @@ impl Poller {
             });
 
             // Process every entry in the queue before we start polling.
-            self.drain_update_queue(false)?;
+            self.drain_update_queue()?;
 
             // Get the time to wait for.
             let timeout = deadline.map(|t| t.saturating_duration_since(Instant::now()));
@@ -504,57 +508,58 @@ impl Poller {
     }
 
     /// Run an update on a packet.
-    fn update_packet(&self, mut packet: Packet) -> io::Result<()> {
-        loop {
-            // If we are currently polling, we need to update the packet immediately.
-            if self.polling.load(Ordering::Acquire) {
-                packet.update()?;
-                return Ok(());
-            }
+    fn update_packet(&self, packet: Packet) -> io::Result<()> {
+        // If we are currently polling, we need to update the packet immediately.
+        if self.polling.load(Ordering::Acquire) {
+            return packet.update();
+        }
 
-            // Try to queue the update.
-            let queued = packet.clone();
-            match self.pending_updates.push(queued) {
-                Ok(()) => {
-                    // If a wait began in the meantime, it may have drained the queue before we
-                    // pushed and will not look at it again until it returns.
-                    fence(Ordering::SeqCst);
-                    if self.polling.load(Ordering::SeqCst) {
-                        packet.update()?;
-                    }
-                    return Ok(());
+        // Try to queue the update.
+        match self.pending_updates.push(packet.clone()) {
+            Ok(()) => {
+                // If a wait began in the meantime, it may have drained the queue before we
+                // pushed and will not look at it again until it returns.
+                fence(Ordering::SeqCst);
+                if self.polling.load(Ordering::SeqCst) {
+                    packet.update()?;
                 }
-                Err(p) => packet = p.into_inner(),
+                Ok(())
             }
 
-            // If we failed to queue the update, we need to drain the queue first.
-            self.drain_update_queue(true)?;
+            // There is no room to queue it. Don't drain the queue here: nobody would try again
+            // in time what fails, or is still on its way, when a wait begins.
+            Err(_) => packet.update(),
+        }
+    }
 
-            // Loop back and try again.
+    /// Run an update on a packet that was taken out of the port.
+    ///
+    /// If the update fails, the next wait tries again and reports it. What was taken out of the
+    /// port must not be lost with it.
+    fn update_fed_packet(&self, packet: Packet) {
+        if self.update_packet(packet.clone()).is_err() {
+            lock!(self.failed_updates.lock()).push(packet);
         }
     }
 
     /// Drain the update queue.
-    fn drain_update_queue(&self, limit: bool) -> io::Result<()> {
-        // Determine how many packets to process.
-        let max = if limit {
-            // Only drain the queue's capacity, since this could in theory run forever.
-            self.pending_updates.capacity().unwrap()
-        } else {
-            // Less of a concern if we're draining the queue prior to a poll operation.
-            std::usize::MAX
-        };
+    fn drain_update_queue(&self) -> io::Result<()> {
+        // Try again what failed before.
+        let mut failed = lock!(self.failed_updates.lock());
+        while let Some(packet) = failed.pop() {
+            packet.clone().update().map_err(|e| {
+                failed.push(packet);
+                e
+            })?;
+        }
 
-        self.pending_updates
-            .try_iter()
-            .take(max)
-            .try_for_each(|packet| {
-                packet.clone().update().map_err(|e| {
-                    // Leave the packet in the queue, so that the update is tried again.
-                    self.pending_updates.push(packet).ok();
-                    e
-                })
+        self.pending_updates.try_iter().try_for_each(|packet| {
+            packet.clone().update().map_err(|e| {
+                // Keep the packet, so that the update is tried again.
+                failed.push(packet);
+                e
             })
+        })
     }
 
     /// Get a handle to the AFD reference.
@@ -1023,7 +1028,7 @@ impl PacketUnwrapped {
 
                 // Submit for an update.
                 drop(handle);
-                poller.update_packet(self)?;
+                poller.update_fed_packet(self);
 
                 return Ok(FeedEventResult::Event(event));
             }
@@ -1112,7 +1117,7 @@ impl PacketUnwrapped {
 
         // Put ourselves in the update queue.
         drop(socket_state);
-        poller.update_packet(self)?;
+        poller.update_fed_packet(self);
 
         // Return the event.
         Ok(return_value)
-- 
2.43.0

