//! The part of hermit-abi 0.5.3 that the library uses; the calls are the C library's, which go to the simulator. The
//! constants are Linux' in hermit-abi too, but for EFD_CLOEXEC.
#![allow(non_camel_case_types, clippy::missing_safety_doc)]

pub use libc::{pollfd, POLLERR, POLLHUP, POLLIN, POLLNVAL, POLLOUT, POLLPRI, POLLRDBAND, POLLRDNORM, POLLWRBAND, POLLWRNORM};

pub type nfds_t = usize;

pub const EFD_SEMAPHORE: i16 = 0o1;
pub const EFD_NONBLOCK: i16 = 0o4000;
pub const EFD_CLOEXEC: i16 = 0o40000;

pub unsafe fn get_errno() -> i32 {
    *libc::__errno_location()
}

pub unsafe fn eventfd(initval: u64, flags: i16) -> i32 {
    libc::eventfd(initval as u32, (flags & (EFD_SEMAPHORE | EFD_NONBLOCK)) as i32)
}

pub unsafe fn read(fd: i32, buf: *mut u8, len: usize) -> isize {
    libc::read(fd, buf.cast(), len)
}

pub unsafe fn write(fd: i32, buf: *const u8, len: usize) -> isize {
    libc::write(fd, buf.cast(), len)
}

pub unsafe fn poll(fds: *mut pollfd, nfds: nfds_t, timeout: i32) -> i32 {
    libc::poll(fds, nfds as libc::nfds_t, timeout)
}
