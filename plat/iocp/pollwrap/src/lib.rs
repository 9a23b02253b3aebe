//! Concrete, non-generic wrappers around the public API of `polling` on Windows, compiled with the same instrumentation
//! as the library so that no generic code of it is instantiated uninstrumented. Contains no logic of its own.

use std::io;
use std::num::NonZeroUsize;
use std::time::Duration;

use polling::os::iocp::PollerIocpExt;
use polwin::os::io::{BorrowedHandle, BorrowedSocket, RawHandle};

pub use polling::os::iocp::CompletionPacket;
pub use polling::{Event, Events, PollMode, Poller};

#[inline(never)]
pub fn new() -> io::Result<Poller> {
    Poller::new()
}
#[inline(never)]
pub fn add(p: &Poller, sock: usize, ev: Event, mode: PollMode) -> io::Result<()> {
    unsafe { p.add_with_mode(sock as u64, ev, mode) }
}
#[inline(never)]
pub fn add_default(p: &Poller, sock: usize, ev: Event) -> io::Result<()> {
    unsafe { p.add(sock as u64, ev) }
}
#[inline(never)]
pub fn modify(p: &Poller, sock: usize, ev: Event, mode: PollMode) -> io::Result<()> {
    p.modify_with_mode(unsafe { BorrowedSocket::borrow_raw(sock as u64) }, ev, mode)
}
#[inline(never)]
pub fn modify_default(p: &Poller, sock: usize, ev: Event) -> io::Result<()> {
    p.modify(unsafe { BorrowedSocket::borrow_raw(sock as u64) }, ev)
}
#[inline(never)]
pub fn delete(p: &Poller, sock: usize) -> io::Result<()> {
    p.delete(unsafe { BorrowedSocket::borrow_raw(sock as u64) })
}
#[inline(never)]
pub fn add_waitable(p: &Poller, h: usize, ev: Event, mode: PollMode) -> io::Result<()> {
    unsafe { p.add_waitable(h as RawHandle, ev, mode) }
}
#[inline(never)]
pub fn modify_waitable(p: &Poller, h: usize, ev: Event, mode: PollMode) -> io::Result<()> {
    p.modify_waitable(unsafe { BorrowedHandle::borrow_raw(h as RawHandle) }, ev, mode)
}
#[inline(never)]
pub fn remove_waitable(p: &Poller, h: usize) -> io::Result<()> {
    p.remove_waitable(unsafe { BorrowedHandle::borrow_raw(h as RawHandle) })
}
#[inline(never)]
pub fn packet(ev: Event) -> CompletionPacket {
    CompletionPacket::new(ev)
}
#[inline(never)]
pub fn post(p: &Poller, k: CompletionPacket) -> io::Result<()> {
    p.post(k)
}
#[inline(never)]
pub fn wait(p: &Poller, events: &mut Events, timeout: Option<Duration>) -> io::Result<usize> {
    p.wait(events, timeout)
}
#[inline(never)]
pub fn notify(p: &Poller) -> io::Result<()> {
    p.notify()
}
#[inline(never)]
pub fn drop_poller(p: Poller) {
    drop(p)
}
#[inline(never)]
pub fn supports(p: &Poller) -> (bool, bool) {
    (p.supports_level(), p.supports_edge())
}
#[inline(never)]
pub fn events(cap: usize) -> Events {
    if cap == 0 {
        Events::new()
    } else {
        Events::with_capacity(NonZeroUsize::new(cap).unwrap())
    }
}
