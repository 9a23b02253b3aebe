//! Concrete, non-generic wrappers around the public API of `polling`, compiled with the same instrumentation as the
//! library so that no generic code of it is instantiated uninstrumented. Contains no logic of its own.

use std::io;
use std::num::NonZeroUsize;
use std::os::fd::BorrowedFd;
use std::time::Duration;

pub use polling::{Event, Events, PollMode, Poller};

#[inline(never)]
pub fn new() -> io::Result<Poller> {
    Poller::new()
}
#[inline(never)]
pub fn add(p: &Poller, fd: i32, ev: Event, mode: PollMode) -> io::Result<()> {
    unsafe { p.add_with_mode(fd, ev, mode) }
}
#[inline(never)]
pub fn add_default(p: &Poller, fd: i32, ev: Event) -> io::Result<()> {
    unsafe { p.add(fd, ev) }
}
#[inline(never)]
pub fn modify(p: &Poller, fd: i32, ev: Event, mode: PollMode) -> io::Result<()> {
    p.modify_with_mode(unsafe { BorrowedFd::borrow_raw(fd) }, ev, mode)
}
#[inline(never)]
pub fn modify_default(p: &Poller, fd: i32, ev: Event) -> io::Result<()> {
    p.modify(unsafe { BorrowedFd::borrow_raw(fd) }, ev)
}
#[inline(never)]
pub fn delete(p: &Poller, fd: i32) -> io::Result<()> {
    p.delete(unsafe { BorrowedFd::borrow_raw(fd) })
}
#[inline(never)]
pub fn wait(p: &Poller, events: &mut Events, timeout: Option<Duration>) -> io::Result<usize> {
    p.wait(events, timeout)
}
#[inline(never)]
pub fn notify(p: &Poller) -> io::Result<()> {
    p.notify()
}
#[inline(never)]
pub fn drop_poller(p: Poller) {
    drop(p)
}
#[inline(never)]
pub fn supports(p: &Poller) -> (bool, bool) {
    (p.supports_level(), p.supports_edge())
}
#[inline(never)]
pub fn events(cap: usize) -> Events {
    if cap == 0 {
        Events::new()
    } else {
        Events::with_capacity(NonZeroUsize::new(cap).unwrap())
    }
}

#[cfg(not(polling_test_poll_backend))]
pub fn raw_fd(p: &Poller) -> Option<i32> {
    use std::os::fd::{AsFd, AsRawFd};
    let a = p.as_raw_fd();
    assert_eq!(a, p.as_fd().as_raw_fd(), "as_fd and as_raw_fd disagree");
    Some(a)
}
#[cfg(polling_test_poll_backend)]
pub fn raw_fd(_p: &Poller) -> Option<i32> {
    None
}

/// One call on a kqueue filter: `op` 0 add, 1 modify, 2 delete; `kind` 0 a signal, 1 to 3 a process that exits, forks or
/// executes another program, 4 a timer.
#[cfg(polsim_kqueue)]
#[inline(never)]
pub fn filter(p: &Poller, op: u8, kind: u8, arg: usize, to: Duration, key: usize, mode: PollMode) -> io::Result<()> {
    use polling::os::kqueue::{Filter, PollerKqueueExt, Process, ProcessOps, Signal, Timer};
    #[inline(always)]
    fn call<F: Filter>(p: &Poller, op: u8, f: F, key: usize, mode: PollMode) -> io::Result<()> {
        match op {
            0 => p.add_filter(f, key, mode),
            1 => p.modify_filter(f, key, mode),
            _ => p.delete_filter(f),
        }
    }
    match kind {
        0 => call(p, op, Signal(arg as _), key, mode),
        4 => call(p, op, Timer { id: arg, timeout: to }, key, mode),
        k => {
            let ops = [ProcessOps::Exit, ProcessOps::Fork, ProcessOps::Exec][k as usize - 1];
            call(p, op, unsafe { Process::from_pid((arg as i32).try_into().unwrap(), ops) }, key, mode)
        }
    }
}
#[cfg(not(polsim_kqueue))]
pub fn filter(_: &Poller, _: u8, _: u8, _: usize, _: Duration, _: usize, _: PollMode) -> io::Result<()> {
    unreachable!()
}
