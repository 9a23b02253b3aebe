//! rustix as a BSD or illumos sees it: the real crate (for this platform) plus its module `event::kqueue` or
//! `event::port`, which exist there only. `kqueue.rs` and `port.rs` are rustix 0.38.44's files; `plat/gen.py` evaluates
//! the predicates inside their `cfg(...)` and changes nothing else. The system calls they make go to the simulator.

extern crate alloc;

pub use rustix_real::{fd, fs, io, pipe, process, time};

pub mod event {
    pub use rustix_real::event::*;
    #[cfg(polsim_kqueue)]
    pub mod kqueue;
    #[cfg(polsim_port)]
    pub mod port;
}

#[cfg(polsim_kqueue)]
mod pid {
    pub use rustix_real::process::Pid;
}
#[cfg(polsim_kqueue)]
mod signal {
    pub use rustix_real::process::Signal;
}

mod backend {
    #[allow(non_camel_case_types)]
    pub mod c {
        pub type intptr_t = isize;
        pub type uintptr_t = usize;

        #[repr(C)]
        #[derive(Clone, Copy)]
        pub struct kevent {
            pub ident: usize,
            pub filter: i16,
            pub flags: u16,
            pub fflags: u32,
            pub data: i64,
            pub udata: isize,
            pub ext: [u64; 4],
        }

        #[allow(non_camel_case_types)]
        pub type c_void = core::ffi::c_void;
        pub const PORT_SOURCE_FD: i32 = 4;

        #[repr(C)]
        #[derive(Clone, Copy)]
        pub struct port_event {
            pub portev_events: i32,
            pub portev_source: u16,
            pub portev_pad: u16,
            pub portev_object: usize,
            pub portev_user: *mut c_void,
        }

        #[repr(C)]
        pub struct timespec {
            pub tv_sec: i64,
            pub tv_nsec: i64,
        }

        // FreeBSD's numbers (sys/event.h).
        pub const EVFILT_READ: i16 = -1;
        pub const EVFILT_WRITE: i16 = -2;
        pub const EVFILT_VNODE: i16 = -4;
        pub const EVFILT_PROC: i16 = -5;
        pub const EVFILT_SIGNAL: i16 = -6;
        pub const EVFILT_TIMER: i16 = -7;
        #[allow(dead_code)]
        pub const EVFILT_USER: i16 = -11;
        #[allow(dead_code)]
        pub const EVFILT_EMPTY: i16 = -13;
        pub const EV_ADD: u16 = 0x1;
        pub const EV_DELETE: u16 = 0x2;
        pub const EV_ENABLE: u16 = 0x4;
        pub const EV_DISABLE: u16 = 0x8;
        pub const EV_ONESHOT: u16 = 0x10;
        pub const EV_CLEAR: u16 = 0x20;
        pub const EV_RECEIPT: u16 = 0x40;
        pub const EV_ERROR: u16 = 0x4000;
        pub const EV_EOF: u16 = 0x8000;
        pub const NOTE_DELETE: u32 = 0x1;
        pub const NOTE_WRITE: u32 = 0x2;
        pub const NOTE_EXTEND: u32 = 0x4;
        pub const NOTE_ATTRIB: u32 = 0x8;
        pub const NOTE_LINK: u32 = 0x10;
        pub const NOTE_RENAME: u32 = 0x20;
        pub const NOTE_REVOKE: u32 = 0x40;
        pub const NOTE_EXIT: u32 = 0x8000_0000;
        pub const NOTE_FORK: u32 = 0x4000_0000;
        pub const NOTE_EXEC: u32 = 0x2000_0000;
        pub const NOTE_TRACK: u32 = 0x1;
        pub const NOTE_TRACKERR: u32 = 0x2;
        pub const NOTE_SECONDS: u32 = 0x1;
        pub const NOTE_USECONDS: u32 = 0x4;
        pub const NOTE_NSECONDS: u32 = 0x8;
        #[allow(dead_code)]
        pub const NOTE_FFNOP: u32 = 0;
        #[allow(dead_code)]
        pub const NOTE_FFAND: u32 = 0x4000_0000;
        #[allow(dead_code)]
        pub const NOTE_FFOR: u32 = 0x8000_0000;
        #[allow(dead_code)]
        pub const NOTE_FFCOPY: u32 = 0xc000_0000;
        #[allow(dead_code)]
        pub const NOTE_FFCTRLMASK: u32 = 0xc000_0000;
        #[allow(dead_code)]
        pub const NOTE_FFLAGSMASK: u32 = 0x00ff_ffff;
        #[allow(dead_code)]
        pub const NOTE_TRIGGER: u32 = 0x0100_0000;
    }

    #[cfg(polsim_port)]
    pub mod event {
        pub mod syscalls {
            use super::super::c;
            use crate::event::port::Event;
            use crate::fd::{AsRawFd, BorrowedFd, FromRawFd, OwnedFd};
            use crate::io::{Errno, Result};

            extern "C" {
                // All return a negated error number where the system call would fail.
                fn polsim_port_create() -> i32;
                fn polsim_port_associate(port: i32, object: usize, events: i32, user: *mut c::c_void) -> i32;
                fn polsim_port_dissociate(port: i32, object: usize) -> i32;
                fn polsim_port_send(port: i32, events: i32, user: *mut c::c_void) -> i32;
                fn polsim_port_getn(port: i32, list: *mut c::port_event, max: u32, nget: *mut u32, timeout: *const c::timespec) -> i32;
            }

            fn ret(r: i32) -> Result<()> {
                if r < 0 {
                    return Err(Errno::from_raw_os_error(-r));
                }
                Ok(())
            }

            pub fn port_create() -> Result<OwnedFd> {
                let r = unsafe { polsim_port_create() };
                ret(r)?;
                Ok(unsafe { OwnedFd::from_raw_fd(r) })
            }

            pub unsafe fn port_associate(
                port: BorrowedFd<'_>,
                _source: i32,
                object: usize,
                events: i32,
                user: *mut c::c_void,
            ) -> Result<()> {
                ret(polsim_port_associate(port.as_raw_fd(), object, events, user))
            }

            pub unsafe fn port_dissociate(port: BorrowedFd<'_>, _source: i32, object: usize) -> Result<()> {
                ret(polsim_port_dissociate(port.as_raw_fd(), object))
            }

            pub fn port_send(port: BorrowedFd<'_>, events: i32, user: *mut c::c_void) -> Result<()> {
                ret(unsafe { polsim_port_send(port.as_raw_fd(), events, user) })
            }

            pub fn port_get(port: BorrowedFd<'_>, timeout: Option<&mut c::timespec>) -> Result<Event> {
                let mut list = alloc::vec::Vec::with_capacity(1);
                port_getn(port, timeout, &mut list, 1)?;
                list.pop().ok_or(Errno::TIME)
            }

            pub fn port_getn(
                port: BorrowedFd<'_>,
                timeout: Option<&mut c::timespec>,
                events: &mut alloc::vec::Vec<Event>,
                mut nget: u32,
            ) -> Result<()> {
                // As in rustix.
                if events.capacity() == 0 {
                    return Ok(());
                }
                unsafe {
                    ret(polsim_port_getn(
                        port.as_raw_fd(),
                        events.as_mut_ptr().cast(),
                        events.capacity().try_into().unwrap(),
                        &mut nget,
                        timeout.map_or(core::ptr::null(), |t| t as *const _),
                    ))?;
                    events.set_len(nget.try_into().unwrap());
                }
                Ok(())
            }

            pub fn port_getn_query(port: BorrowedFd<'_>) -> Result<u32> {
                let mut nget = 0;
                ret(unsafe { polsim_port_getn(port.as_raw_fd(), core::ptr::null_mut(), 0, &mut nget, core::ptr::null()) })?;
                Ok(nget)
            }
        }
    }

    #[cfg(polsim_kqueue)]
    pub mod event {
        pub mod syscalls {
            use super::super::c;
            use crate::event::kqueue::Event;
            use crate::fd::{AsRawFd, BorrowedFd, FromRawFd, OwnedFd};
            use crate::io::{Errno, Result};
            use core::mem::MaybeUninit;

            extern "C" {
                // Both return a negated error number where the system call would fail.
                fn polsim_kqueue() -> i32;
                fn polsim_kevent(
                    kq: i32,
                    changes: *const c::kevent,
                    nchanges: i32,
                    events: *mut c::kevent,
                    nevents: i32,
                    timeout: *const c::timespec,
                ) -> i32;
            }

            pub fn kqueue() -> Result<OwnedFd> {
                let r = unsafe { polsim_kqueue() };
                if r < 0 {
                    return Err(Errno::from_raw_os_error(-r));
                }
                Ok(unsafe { OwnedFd::from_raw_fd(r) })
            }

            pub unsafe fn kevent(
                kq: BorrowedFd<'_>,
                changelist: &[Event],
                eventlist: &mut [MaybeUninit<Event>],
                timeout: Option<&c::timespec>,
            ) -> Result<i32> {
                let r = polsim_kevent(
                    kq.as_raw_fd(),
                    changelist.as_ptr().cast(),
                    changelist.len().try_into().map_err(|_| Errno::OVERFLOW)?,
                    eventlist.as_mut_ptr().cast(),
                    eventlist.len().try_into().map_err(|_| Errno::OVERFLOW)?,
                    timeout.map_or(core::ptr::null(), |t| t as *const _),
                );
                if r < 0 {
                    return Err(Errno::from_raw_os_error(-r));
                }
                Ok(r)
            }
        }
    }
}
