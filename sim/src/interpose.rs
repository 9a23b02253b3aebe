//! The seams: libc symbols and thread-sanitizer atomics, defined by this binary. Outside library code running in a
//! simulated thread every function passes through to the real kernel.

use std::arch::asm;
use std::ffi::{c_int, c_long, c_uint, c_void};

use crate::kernel::*;
use crate::sim::{self, block, in_lib, s, yield_point, Blk, Fault, FaultSite, Wake, NEVER};

pub unsafe fn raw6(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut c_int;
}

fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}

unsafe fn pass(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r = raw6(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

fn ret(r: Result<c_long, i32>) -> c_long {
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

/// Entry of every simulated system call.
fn enter(name: &'static str) {
    s().here(crate::rng::hash_bytes(1, name.as_bytes()) >> 8);
    yield_point();
    let s = s();
    s.stats.add("syscalls", 1);
    let c = s.cost;
    s.advance(c);
    s.k.actor = s.cur;
}

fn leave(name: &'static str, args: impl FnOnce() -> String, r: &Result<c_long, i32>) {
    let r = *r;
    s().logf(|| match r {
        Ok(v) => format!("{}({}) = {}", name, args(), v),
        Err(e) => format!("{}({}) = -1 {}", name, args(), errno_name(e)),
    });
}

pub fn errno_name(e: i32) -> String {
    match e {
        libc::EAGAIN => "EAGAIN".into(),
        libc::EINTR => "EINTR".into(),
        libc::ENOENT => "ENOENT".into(),
        libc::EEXIST => "EEXIST".into(),
        libc::EBADF => "EBADF".into(),
        libc::EINVAL => "EINVAL".into(),
        libc::ENOMEM => "ENOMEM".into(),
        libc::ENOSPC => "ENOSPC".into(),
        libc::EPERM => "EPERM".into(),
        libc::ENOSYS => "ENOSYS".into(),
        libc::EMFILE => "EMFILE".into(),
        libc::ENFILE => "ENFILE".into(),
        libc::ETIMEDOUT => "ETIMEDOUT".into(),
        e => format!("errno {}", e),
    }
}

/// Creation-time failures decided by the scenario: facilities that do not exist, or the n-th call of a creation.
fn create_fault(name: &'static str) -> Option<i32> {
    let s = s();
    let missing = s.w.sc.degrade.missing(name);
    let cur = s.cur;
    let Some(c) = s.w.creating[cur].as_mut() else { return missing };
    let n = c.n;
    c.n += 1;
    if let Some(e) = missing {
        s.stats.add("fault_facility_missing", 1);
        s.logf(|| format!("facility missing: {} -> {}", name, errno_name(e)));
        return Some(e);
    }
    if c.fail_at == Some(n) && c.failed.is_none() {
        let e = match (name, c.errno_sel) {
            ("fcntl", _) => libc::EPERM,
            ("epoll_ctl", x) => [libc::ENOMEM, libc::ENOSPC][x as usize % 2],
            (_, x) => [libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::EPERM, libc::ENOSYS][x as usize % 5],
        };
        c.failed = Some((name, e));
        s.stats.add("fault_creation_call_failed", 1);
        s.logf(|| format!("creation call failed: {} -> {}", name, errno_name(e)));
        return Some(e);
    }
    None
}

fn user_touch(fd: i32, what: &str) {
    let s = s();
    if let Ok(f) = s.k.of(fd) {
        if let Owner::User(i) = f.owner {
            crate::oracle::note(
                "user_fd_touched",
                format!("the library called {} on descriptor {} of user source s{}", what, fd, i),
            );
        }
    }
}

// ---------------------------------------------------------------- read / write / close

unsafe fn sim_read(fd: c_int, buf: *mut c_void, n: usize) -> Result<c_long, i32> {
    user_touch(fd, "read");
    loop {
        if crate::oracle::VITA && s().k.has_late_data(fd) {
            // What was written takes a moment to arrive.
            if let Some(Fault::Errno(e)) = s().fault(FaultSite::Late, None) {
                crate::exec::op_late();
                return Err(e);
            }
        }
        match s().k.read(fd, n) {
            Ok(v) => {
                std::ptr::copy_nonoverlapping(v.as_ptr(), buf as *mut u8, v.len());
                return Ok(v.len() as c_long);
            }
            Err(libc::EAGAIN) => {
                let f = s().k.of(fd)?;
                if f.flags & libc::O_NONBLOCK != 0 {
                    return Err(libc::EAGAIN);
                }
                match f.kind {
                    Kind::PipeR(p) => {
                        s().logf(|| format!("read({}) blocks", fd));
                        block(Blk::PipeR(p), NEVER, NEVER);
                    }
                    Kind::EventFd { .. } => {
                        let id = s().k.ent(fd)?.file;
                        s().logf(|| format!("read({}) blocks", fd));
                        block(Blk::EventFd(id), NEVER, NEVER);
                    }
                    // Blocking timerfd reads are not used; a bug that blocks here hangs for ever.
                    _ => {
                        s().logf(|| format!("read({}) blocks", fd));
                        block(Blk::Sleep, NEVER, NEVER);
                    }
                }
            }
            Err(e) => return Err(e),
        }
    }
}

unsafe fn sim_write(fd: c_int, buf: *const c_void, n: usize) -> Result<c_long, i32> {
    user_touch(fd, "write");
    let data = std::slice::from_raw_parts(buf as *const u8, n);
    loop {
        match s().k.write(fd, data) {
            Ok(v) => return Ok(v as c_long),
            Err(libc::EAGAIN) => {
                let f = s().k.of(fd)?;
                if f.flags & libc::O_NONBLOCK != 0 {
                    return Err(libc::EAGAIN);
                }
                s().logf(|| format!("write({}) blocks", fd));
                match f.kind {
                    Kind::PipeW(p) => {
                        block(Blk::PipeW(p), NEVER, NEVER);
                    }
                    _ => {
                        block(Blk::Sleep, NEVER, NEVER);
                    }
                }
            }
            Err(e) => return Err(e),
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if !in_lib() {
        return pass(libc::SYS_read, fd as _, buf as _, n as _, 0, 0, 0) as isize;
    }
    enter("read");
    let r = sim_read(fd, buf, n);
    leave("read", || format!("{}, {}", fd, n), &r);
    ret(r) as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if !in_lib() {
        return pass(libc::SYS_write, fd as _, buf as _, n as _, 0, 0, 0) as isize;
    }
    enter("write");
    let r = sim_write(fd, buf, n);
    leave("write", || format!("{}, {}", fd, n), &r);
    ret(r) as isize
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if !in_lib() {
        return pass(libc::SYS_readv, fd as _, iov as _, n as _, 0, 0, 0) as isize;
    }
    enter("readv");
    let r = if n > 0 { sim_read(fd, (*iov).iov_base, (*iov).iov_len) } else { Ok(0) };
    leave("readv", || format!("{}", fd), &r);
    ret(r) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if !in_lib() {
        return pass(libc::SYS_writev, fd as _, iov as _, n as _, 0, 0, 0) as isize;
    }
    enter("writev");
    let r = if n > 0 { sim_write(fd, (*iov).iov_base, (*iov).iov_len) } else { Ok(0) };
    leave("writev", || format!("{}", fd), &r);
    ret(r) as isize
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_close, fd as _, 0, 0, 0, 0, 0) as c_int;
    }
    enter("close");
    user_touch(fd, "close");
    let r = s().k.close(fd).map(|_| 0);
    if r.is_err() {
        crate::oracle::note("bad_close", format!("the library closed descriptor {}, which is not open", fd));
    }
    leave("close", || format!("{}", fd), &r);
    ret(r) as c_int
}

// ---------------------------------------------------------------- fcntl / ioctl / dup

unsafe fn sim_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    enter("fcntl");
    let inner = || -> Result<c_long, i32> {
        if let Some(e) = create_fault("fcntl") {
            return Err(e);
        }
        let s = s();
        match cmd {
            libc::F_GETFD => Ok(s.k.ent(fd)?.cloexec as c_long),
            libc::F_SETFD => {
                user_touch(fd, "fcntl(F_SETFD)");
                s.k.ent_mut(fd)?.cloexec = arg as c_int & libc::FD_CLOEXEC != 0;
                Ok(0)
            }
            libc::F_GETFL => {
                let f = s.k.of(fd)?;
                Ok(f.flags as c_long)
            }
            libc::F_SETFL => {
                user_touch(fd, "fcntl(F_SETFL)");
                let e = s.k.ent(fd)?;
                let f = s.k.file_mut(e.file);
                let settable = libc::O_NONBLOCK | libc::O_APPEND | libc::O_ASYNC;
                f.flags = (f.flags & !settable) | (arg as c_int & settable);
                Ok(0)
            }
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
                let e = s.k.ent(fd)?;
                s.k.file_mut(e.file).refs += 1;
                let from = (arg as i32 - s.k.fd_base).max(0) as usize;
                Ok(s.k.alloc_fd(e.file, cmd == libc::F_DUPFD_CLOEXEC, from) as c_long)
            }
            1031 => {
                // F_SETPIPE_SZ
                let e = s.k.ent(fd)?;
                match s.k.file(e.file).kind {
                    Kind::PipeR(p) | Kind::PipeW(p) => {
                        s.k.pipes[p].cap = (arg.max(4096)).next_power_of_two();
                        Ok(s.k.pipes[p].cap as c_long)
                    }
                    _ => Err(libc::EBADF),
                }
            }
            _ => {
                s.k.ent(fd)?;
                Err(libc::EINVAL)
            }
        }
    };
    let r = inner();
    // The argument register holds rubbish for the commands without one.
    let arg = if matches!(cmd, libc::F_GETFD | libc::F_GETFL) { 0 } else { arg };
    leave("fcntl", || format!("{}, {}, {:#x}", fd, cmd, arg), &r);
    ret(r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_fcntl, fd as _, cmd as _, arg as _, 0, 0, 0) as c_int;
    }
    sim_fcntl(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_ioctl, fd as _, req as _, arg as _, 0, 0, 0) as c_int;
    }
    enter("ioctl");
    let inner = || -> Result<c_long, i32> {
        let s = s();
        let e = s.k.ent(fd)?;
        match req {
            libc::FIONBIO => {
                user_touch(fd, "ioctl(FIONBIO)");
                let on = *(arg as *const c_int) != 0;
                let f = s.k.file_mut(e.file);
                if on {
                    f.flags |= libc::O_NONBLOCK;
                } else {
                    f.flags &= !libc::O_NONBLOCK;
                }
                Ok(0)
            }
            libc::FIOCLEX | libc::FIONCLEX => {
                user_touch(fd, "ioctl(FIOCLEX)");
                s.k.ent_mut(fd)?.cloexec = req == libc::FIOCLEX;
                Ok(0)
            }
            libc::FIONREAD => {
                let n = match &s.k.file(e.file).kind {
                    Kind::PipeR(p) => s.k.pipes[*p].buf.len() as c_int,
                    Kind::Sock(x) => x.rx as c_int,
                    _ => return Err(libc::ENOTTY),
                };
                *(arg as *mut c_int) = n;
                Ok(0)
            }
            _ => Err(libc::ENOTTY),
        }
    };
    let r = inner();
    leave("ioctl", || format!("{}, {:#x}", fd, req), &r);
    ret(r) as c_int
}

unsafe fn sim_dup(fd: c_int, to: Option<c_int>, cx: bool) -> Result<c_long, i32> {
    let s = s();
    let e = s.k.ent(fd)?;
    match to {
        None => {
            s.k.file_mut(e.file).refs += 1;
            Ok(s.k.alloc_fd(e.file, cx, 0) as c_long)
        }
        Some(t) => {
            if t == fd {
                return Ok(fd as c_long);
            }
            if s.k.ent(t).is_ok() {
                user_touch(t, "dup2 over");
                let _ = s.k.close(t);
            }
            s.k.file_mut(e.file).refs += 1;
            Ok(s.k.alloc_fd(e.file, cx, (t - s.k.fd_base).max(0) as usize) as c_long)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_dup, fd as _, 0, 0, 0, 0, 0) as c_int;
    }
    enter("dup");
    let r = sim_dup(fd, None, false);
    leave("dup", || format!("{}", fd), &r);
    ret(r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn dup2(fd: c_int, to: c_int) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_dup2, fd as _, to as _, 0, 0, 0, 0) as c_int;
    }
    enter("dup2");
    let r = sim_dup(fd, Some(to), false);
    leave("dup2", || format!("{}, {}", fd, to), &r);
    ret(r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn dup3(fd: c_int, to: c_int, fl: c_int) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_dup3, fd as _, to as _, fl as _, 0, 0, 0) as c_int;
    }
    enter("dup3");
    let r = sim_dup(fd, Some(to), fl & libc::O_CLOEXEC != 0);
    leave("dup3", || format!("{}, {}", fd, to), &r);
    ret(r) as c_int
}

// ---------------------------------------------------------------- creation

unsafe fn sim_pipe(name: &'static str, fds: *mut c_int, flags: c_int) -> c_int {
    enter(name);
    let r = match create_fault(name) {
        Some(e) => Err(e),
        None => {
            let (r, w) = s().k.pipe(flags, Owner::Lib);
            *fds = r;
            *fds.add(1) = w;
            Ok(0)
        }
    };
    leave(name, || if r.is_ok() { format!("[{}, {}], {:#x}", *fds, *fds.add(1), flags) } else { format!("{:#x}", flags) }, &r);
    ret(r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn pipe(fds: *mut c_int) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_pipe, fds as _, 0, 0, 0, 0, 0) as c_int;
    }
    sim_pipe("pipe", fds, 0)
}

#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, flags: c_int) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_pipe2, fds as _, flags as _, 0, 0, 0, 0) as c_int;
    }
    sim_pipe("pipe2", fds, flags)
}

fn sim_eventfd(init: u64, mut flags: c_int) -> c_int {
    enter("eventfd");
    if crate::oracle::ESP {
        flags |= libc::EFD_NONBLOCK;
    }
    if crate::oracle::ESP || crate::oracle::HERMIT {
        // There is nothing a descriptor could be leaked to.
        flags |= libc::EFD_CLOEXEC;
    }
    let r = match create_fault("eventfd") {
        Some(e) => Err(e),
        None => {
            let s = s();
            let f = s.k.new_file(
                Kind::EventFd { count: init, semaphore: flags & libc::EFD_SEMAPHORE != 0 },
                flags & libc::O_NONBLOCK | libc::O_RDWR,
                Owner::Lib,
            );
            Ok(s.k.alloc_fd(f, flags & libc::EFD_CLOEXEC != 0, 0) as c_long)
        }
    };
    leave("eventfd", || format!("{}, {:#x}", init, flags), &r);
    ret(r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn eventfd(init: c_uint, flags: c_int) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_eventfd2, init as _, flags as _, 0, 0, 0, 0) as c_int;
    }
    sim_eventfd(init as u64, flags)
}

fn sim_epoll_create(flags: c_int) -> c_int {
    enter("epoll_create1");
    let r = match create_fault("epoll_create1") {
        Some(e) => Err(e),
        None => {
            let s = s();
            let f = s.k.new_file(Kind::Epoll(Epoll::default()), libc::O_RDWR, Owner::Lib);
            Ok(s.k.alloc_fd(f, flags & libc::EPOLL_CLOEXEC != 0, 0) as c_long)
        }
    };
    leave("epoll_create1", || format!("{:#x}", flags), &r);
    ret(r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_epoll_create1, flags as _, 0, 0, 0, 0, 0) as c_int;
    }
    sim_epoll_create(flags)
}

#[no_mangle]
pub unsafe extern "C" fn epoll_create(n: c_int) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_epoll_create, n as _, 0, 0, 0, 0, 0) as c_int;
    }
    sim_epoll_create(0)
}

#[no_mangle]
pub unsafe extern "C" fn timerfd_create(clock: c_int, flags: c_int) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_timerfd_create, clock as _, flags as _, 0, 0, 0, 0) as c_int;
    }
    enter("timerfd_create");
    let r = match create_fault("timerfd_create") {
        Some(e) => Err(e),
        None => {
            let s = s();
            let f = s.k.new_file(
                Kind::TimerFd { deadline: NEVER, interval: 0, ticks: 0, clock },
                flags & libc::O_NONBLOCK | libc::O_RDWR,
                Owner::Lib,
            );
            Ok(s.k.alloc_fd(f, flags & libc::TFD_CLOEXEC != 0, 0) as c_long)
        }
    };
    leave("timerfd_create", || format!("{}, {:#x}", clock, flags), &r);
    ret(r) as c_int
}

// ---------------------------------------------------------------- timerfd

fn ts_ns(t: &libc::timespec) -> Result<u64, i32> {
    if t.tv_sec < 0 || t.tv_nsec < 0 || t.tv_nsec >= 1_000_000_000 {
        return Err(libc::EINVAL);
    }
    Ok((t.tv_sec as u64).saturating_mul(1_000_000_000).saturating_add(t.tv_nsec as u64).min(i64::MAX as u64))
}

#[no_mangle]
pub unsafe extern "C" fn timerfd_settime(
    fd: c_int,
    flags: c_int,
    new: *const libc::itimerspec,
    old: *mut libc::itimerspec,
) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_timerfd_settime, fd as _, flags as _, new as _, old as _, 0, 0) as c_int;
    }
    enter("timerfd_settime");
    let v = *new;
    let inner = || -> Result<c_long, i32> {
        let s = s();
        let now = s.now;
        let realoff = s.real_jump;
        let e = s.k.ent(fd)?;
        let Kind::TimerFd { deadline, interval, clock, .. } = &s.k.file(e.file).kind else {
            return Err(libc::EINVAL);
        };
        let val = ts_ns(&v.it_value)?;
        let int = ts_ns(&v.it_interval)?;
        if !old.is_null() {
            let rem = if *deadline == NEVER { 0 } else { deadline.saturating_sub(now).max(1) };
            (*old).it_value.tv_sec = (rem / 1_000_000_000) as _;
            (*old).it_value.tv_nsec = (rem % 1_000_000_000) as _;
            (*old).it_interval.tv_sec = (*interval / 1_000_000_000) as _;
            (*old).it_interval.tv_nsec = (*interval % 1_000_000_000) as _;
        }
        let at = if val == 0 {
            NEVER
        } else if flags & libc::TFD_TIMER_ABSTIME != 0 {
            if *clock == libc::CLOCK_REALTIME {
                (val as i64 - REAL_BASE as i64 - realoff).max(0) as u64
            } else {
                val
            }
        } else {
            now.saturating_add(val)
        };
        s.k.timer_set(e.file, at, int);
        s.k.fire_timers(now);
        Ok(0)
    };
    let r = inner();
    leave("timerfd_settime", || format!("{}, {}s{}ns", fd, v.it_value.tv_sec, v.it_value.tv_nsec), &r);
    ret(r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn timerfd_gettime(fd: c_int, cur: *mut libc::itimerspec) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_timerfd_gettime, fd as _, cur as _, 0, 0, 0, 0) as c_int;
    }
    enter("timerfd_gettime");
    let inner = || -> Result<c_long, i32> {
        let s = s();
        let now = s.now;
        let e = s.k.ent(fd)?;
        let Kind::TimerFd { deadline, interval, .. } = &s.k.file(e.file).kind else { return Err(libc::EINVAL) };
        let rem = if *deadline == NEVER { 0 } else { deadline.saturating_sub(now).max(1) };
        (*cur).it_value.tv_sec = (rem / 1_000_000_000) as _;
        (*cur).it_value.tv_nsec = (rem % 1_000_000_000) as _;
        (*cur).it_interval.tv_sec = (*interval / 1_000_000_000) as _;
        (*cur).it_interval.tv_nsec = (*interval % 1_000_000_000) as _;
        Ok(0)
    };
    let r = inner();
    leave("timerfd_gettime", || format!("{}", fd), &r);
    ret(r) as c_int
}

// ---------------------------------------------------------------- kqueue

use crate::kq::{self, Kev};

/// Called by `plat/crates/polrustix`; errors are returned negated.
#[no_mangle]
pub extern "C" fn polsim_kqueue() -> c_int {
    if !in_lib() {
        return -libc::ENOSYS;
    }
    enter("kqueue");
    let r = match create_fault("kqueue") {
        Some(e) => Err(e),
        None => {
            let s = s();
            let f = s.k.new_file(Kind::Kqueue(kq::Kqueue::default()), libc::O_RDWR, Owner::Lib);
            Ok(s.k.alloc_fd(f, false, 0) as c_long)
        }
    };
    leave("kqueue", || String::new(), &r);
    r.map_or_else(|e| -e, |v| v as c_int)
}

fn kev_text(c: &Kev) -> String {
    let f = match c.filter {
        kq::READ => "READ",
        kq::WRITE => "WRITE",
        kq::PROC => "PROC",
        kq::SIGNAL => "SIGNAL",
        kq::TIMER => "TIMER",
        kq::USER => "USER",
        _ => "?",
    };
    let mut o = format!("{} {}", f, c.ident);
    for (b, n) in [
        (kq::EV_ADD, "ADD"),
        (kq::EV_DELETE, "DELETE"),
        (kq::EV_ONESHOT, "ONESHOT"),
        (kq::EV_CLEAR, "CLEAR"),
        (kq::EV_ENABLE, "ENABLE"),
        (kq::EV_DISABLE, "DISABLE"),
        (kq::EV_EOF, "EOF"),
        (kq::EV_ERROR, "ERROR"),
    ] {
        if c.flags & b != 0 {
            o += " ";
            o += n;
        }
    }
    o + &format!(" fflags {:#x} data {} key {:#x}", c.fflags, c.data, c.udata)
}

unsafe fn sim_kevent(kqfd: c_int, ch: &[Kev], evs: *mut Kev, max: usize, timeout: Option<u64>) -> Result<c_long, i32> {
    s().k.kq_mut(kqfd)?;
    if s().w.creating[s().cur].is_some() {
        if let Some(e) = create_fault("kevent") {
            return Err(e);
        }
    }
    let mut n = 0;
    for (i, c) in ch.iter().enumerate() {
        if i > 0 {
            // Changes are applied one by one.
            yield_point();
        }
        let mut r = Ok(());
        if c.filter == kq::TIMER && c.flags & kq::EV_ADD != 0 {
            let known = s().k.kq_mut(kqfd)?.1.notes.iter().any(|n| n.kev.filter == c.filter && n.kev.ident == c.ident);
            if !known {
                if let Some(Fault::Errno(e)) = s().fault(FaultSite::CtlAdd, None) {
                    crate::exec::op_errno(e);
                    r = Err(e);
                }
            }
        }
        if r.is_ok() {
            let now = s().now;
            r = s().k.kq_register(kqfd, c, now);
        }
        s().logf(|| format!("kevent({}) change {} -> {}", kqfd, kev_text(c), r.map_or_else(|e| errno_name(e), |_| "ok".into())));
        if let Err(e) = r {
            if n >= max {
                return Err(e);
            }
        }
        if (r.is_err() || c.flags & kq::EV_RECEIPT != 0) && n < max {
            let mut o = *c;
            o.flags = kq::EV_ERROR;
            o.data = r.err().unwrap_or(0) as i64;
            std::ptr::write_unaligned(evs.add(n), o);
            n += 1;
        }
    }
    if n > 0 || max == 0 {
        return Ok(n as c_long);
    }
    crate::exec::kernel_wait(true);
    let r = sim_kevent_wait(kqfd, evs, max, timeout);
    crate::exec::kernel_wait(false);
    r
}

unsafe fn sim_kevent_wait(kqfd: c_int, evs: *mut Kev, max: usize, timeout: Option<u64>) -> Result<c_long, i32> {
    let (id, _) = s().k.kq_mut(kqfd)?;
    let deadline = timeout.map_or(NEVER, |t| s().now.saturating_add(t));
    let mut intr_at = NEVER;
    let mut first = true;
    let mut woke_intr = false;
    loop {
        let got = s().k.kq_collect(id, max);
        if !got.is_empty() {
            for (i, e) in got.iter().enumerate() {
                s().logf(|| format!("kevent({}) event {}", kqfd, kev_text(e)));
                match e.filter {
                    kq::SIGNAL => s().stats.add("reach_event_signal", 1),
                    kq::PROC => s().stats.add("reach_event_process", 1),
                    kq::TIMER => s().stats.add("reach_event_timer", 1),
                    kq::READ if e.flags & kq::EV_EOF != 0 => s().stats.add("reach_event_eof", 1),
                    _ => {}
                }
                std::ptr::write_unaligned(evs.add(i), *e);
            }
            return Ok(got.len() as c_long);
        }
        if woke_intr {
            crate::exec::op_intr();
            return Err(libc::EINTR);
        }
        if timeout == Some(0) || s().now >= deadline {
            return Ok(0);
        }
        if first {
            first = false;
            if let Some(Fault::Intr(ns)) = s().fault(FaultSite::Block, timeout) {
                intr_at = s().now.saturating_add(ns);
            }
        }
        s().logf(|| format!("kevent({}) blocks{}", kqfd, timeout.map_or(String::new(), |t| format!(" {} ns", t))));
        crate::exec::op_block();
        if let Wake::Intr = block(Blk::Epoll(id), deadline, intr_at) {
            woke_intr = true;
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn polsim_kevent(
    kqfd: c_int,
    ch: *const Kev,
    nch: c_int,
    evs: *mut Kev,
    nev: c_int,
    ts: *const libc::timespec,
) -> c_int {
    if !in_lib() {
        return -libc::ENOSYS;
    }
    enter("kevent");
    let inner = || -> Result<c_long, i32> {
        if nch < 0 || nev < 0 {
            return Err(libc::EINVAL);
        }
        let timeout = if ts.is_null() {
            None
        } else {
            let (sec, ns) = ((*ts).tv_sec, (*ts).tv_nsec);
            if sec < 0 || !(0..1_000_000_000).contains(&ns) {
                return Err(libc::EINVAL);
            }
            // Longer ones than 2^31 s count as none.
            if sec > i32::MAX as i64 {
                None
            } else {
                Some(sec as u64 * 1_000_000_000 + ns as u64)
            }
        };
        let ch = if nch == 0 { &[][..] } else { std::slice::from_raw_parts(ch, nch as usize) };
        sim_kevent(kqfd, ch, evs, nev as usize, timeout)
    };
    let r = inner();
    leave("kevent", || format!("{}, {} changes, room for {}", kqfd, nch, nev), &r);
    r.map_or_else(|e| -e, |v| v as c_int)
}

// ---------------------------------------------------------------- event ports

/// `port_event_t`
#[repr(C)]
pub struct PortEvent {
    events: c_int,
    source: u16,
    pad: u16,
    object: usize,
    user: usize,
}

/// Called by `plat/crates/polrustix`; errors are returned negated.
#[no_mangle]
pub extern "C" fn polsim_port_create() -> c_int {
    if !in_lib() {
        return -libc::ENOSYS;
    }
    enter("port_create");
    let r = match create_fault("port_create") {
        Some(e) => Err(e),
        None => {
            let s = s();
            let f = s.k.new_file(Kind::Port(crate::port::Port::default()), libc::O_RDWR, Owner::Lib);
            Ok(s.k.alloc_fd(f, false, 0) as c_long)
        }
    };
    leave("port_create", || String::new(), &r);
    r.map_or_else(|e| -e, |v| v as c_int)
}

#[no_mangle]
pub extern "C" fn polsim_port_associate(port: c_int, fd: usize, events: c_int, user: usize) -> c_int {
    if !in_lib() {
        return -libc::ENOSYS;
    }
    enter("port_associate");
    let inner = || -> Result<c_long, i32> {
        let fd = fd as i32;
        let known = s().k.port_mut(port)?.1.assocs.iter().any(|a| a.fd == fd);
        if !known {
            if let Some(Fault::Errno(e)) = s().fault(FaultSite::CtlAdd, None) {
                crate::exec::op_errno(e);
                return Err(e);
            }
        }
        s().k.port_associate(port, fd, events as u32, user)?;
        Ok(0)
    };
    let r = inner();
    leave("port_associate", || format!("{}, {}, {:#x}, key {:#x}", port, fd as i32, events, user), &r);
    r.map_or_else(|e| -e, |v| v as c_int)
}

#[no_mangle]
pub extern "C" fn polsim_port_dissociate(port: c_int, fd: usize) -> c_int {
    if !in_lib() {
        return -libc::ENOSYS;
    }
    enter("port_dissociate");
    let r = s().k.port_dissociate(port, fd as i32).map(|_| 0 as c_long);
    leave("port_dissociate", || format!("{}, {}", port, fd as i32), &r);
    r.map_or_else(|e| -e, |v| v as c_int)
}

#[no_mangle]
pub extern "C" fn polsim_port_send(port: c_int, events: c_int, user: usize) -> c_int {
    if !in_lib() {
        return -libc::ENOSYS;
    }
    enter("port_send");
    let r = match s().fault(FaultSite::Send, None) {
        Some(Fault::Errno(e)) => {
            crate::exec::op_errno(e);
            Err(e)
        }
        _ => s().k.port_send(port, events as u32, user).map(|_| 0 as c_long),
    };
    leave("port_send", || format!("{}, {:#x}, key {:#x}", port, events, user), &r);
    r.map_or_else(|e| -e, |v| v as c_int)
}

unsafe fn sim_port_getn(port: c_int, evs: *mut PortEvent, max: usize, nget: *mut u32, timeout: Option<u64>) -> Result<c_long, i32> {
    let (id, p) = s().k.port_mut(port)?;
    if max == 0 {
        *nget = p.queue.len() as u32;
        return Ok(0);
    }
    // The library asks for one event at least.
    if *nget as usize > max || *nget > 1 {
        return Err(libc::EINVAL);
    }
    let least = *nget;
    *nget = 0;
    let deadline = timeout.map_or(NEVER, |t| s().now.saturating_add(t));
    let mut intr_at = NEVER;
    let mut first = true;
    let mut woke_intr = false;
    loop {
        let got = s().k.port_collect(id, max);
        if !got.is_empty() || least == 0 {
            for (i, e) in got.iter().enumerate() {
                s().logf(|| format!("port_getn({}) event of {}: {:#x} key {:#x}", port, e.fd, e.events, e.user));
                let o = PortEvent { events: e.events as c_int, source: if e.fd < 0 { 3 } else { 4 }, pad: 0, object: e.fd as usize, user: e.user };
                std::ptr::write_unaligned(evs.add(i), o);
            }
            *nget = got.len() as u32;
            return Ok(0);
        }
        if woke_intr {
            crate::exec::op_intr();
            return Err(libc::EINTR);
        }
        if timeout == Some(0) || s().now >= deadline {
            return Err(libc::ETIME);
        }
        if first {
            first = false;
            if let Some(Fault::Intr(ns)) = s().fault(FaultSite::Block, timeout) {
                intr_at = s().now.saturating_add(ns);
            }
        }
        s().logf(|| format!("port_getn({}) blocks{}", port, timeout.map_or(String::new(), |t| format!(" {} ns", t))));
        crate::exec::op_block();
        if let Wake::Intr = block(Blk::Epoll(id), deadline, intr_at) {
            woke_intr = true;
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn polsim_port_getn(
    port: c_int,
    evs: *mut PortEvent,
    max: u32,
    nget: *mut u32,
    ts: *const libc::timespec,
) -> c_int {
    if !in_lib() {
        return -libc::ENOSYS;
    }
    enter("port_getn");
    let inner = || -> Result<c_long, i32> {
        let timeout = if ts.is_null() {
            None
        } else {
            let (sec, ns) = ((*ts).tv_sec, (*ts).tv_nsec);
            if sec < 0 || !(0..1_000_000_000).contains(&ns) {
                return Err(libc::EINVAL);
            }
            // Longer ones than 2^31 s count as none.
            if sec > i32::MAX as i64 {
                None
            } else {
                Some(sec as u64 * 1_000_000_000 + ns as u64)
            }
        };
        crate::exec::kernel_wait(true);
        let r = sim_port_getn(port, evs, max as usize, nget, timeout);
        crate::exec::kernel_wait(false);
        r
    };
    let r = inner();
    leave("port_getn", || format!("{}, room for {}, got {}", port, max, *nget), &r);
    r.map_or_else(|e| -e, |v| v as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn socketpair(dom: c_int, ty: c_int, proto: c_int, fds: *mut c_int) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_socketpair, dom as _, ty as _, proto as _, fds as _, 0, 0) as c_int;
    }
    // Only one direction carries data: what is written to the second is read from the first.
    sim_pipe("socketpair", fds, (ty & libc::SOCK_NONBLOCK) | if ty & libc::SOCK_CLOEXEC != 0 { libc::O_CLOEXEC } else { 0 })
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, n: usize, fl: c_int) -> isize {
    if !in_lib() {
        return pass(libc::SYS_recvfrom, fd as _, buf as _, n as _, fl as _, 0, 0) as isize;
    }
    enter("recv");
    let r = sim_read(fd, buf, n);
    leave("recv", || format!("{}, {}", fd, n), &r);
    ret(r) as isize
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, n: usize, fl: c_int) -> isize {
    if !in_lib() {
        return pass(libc::SYS_sendto, fd as _, buf as _, n as _, fl as _, 0, 0) as isize;
    }
    enter("send");
    let r = sim_write(fd, buf, n);
    leave("send", || format!("{}, {}", fd, n), &r);
    ret(r) as isize
}

// ---------------------------------------------------------------- epoll

#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_epoll_ctl, ep as _, op as _, fd as _, ev as _, 0, 0) as c_int;
    }
    enter("epoll_ctl");
    let e = if ev.is_null() { None } else { Some(((*ev).events, (*ev).u64)) };
    let mut inner = || -> Result<c_long, i32> {
        if s().w.creating[s().cur].is_some() {
            if let Some(e) = create_fault("epoll_ctl") {
                return Err(e);
            }
        } else if op == libc::EPOLL_CTL_ADD {
            // The kernel allocates only after these checks.
            let would = {
                let k = &mut s().k;
                let tid = k.ent(fd)?.file;
                k.pollable(tid) && k.epoll_mut(ep).map_or(false, |(_, x)| !x.items.iter().any(|i| i.fd == fd && i.file == tid))
            };
            if would {
                if let Some(Fault::Errno(e)) = s().fault(FaultSite::CtlAdd, None) {
                    crate::exec::op_errno(e);
                    return Err(e);
                }
            }
        }
        s().k.epoll_ctl(ep, op, fd, e)?;
        Ok(0)
    };
    let r = inner();
    leave(
        "epoll_ctl",
        || {
            format!(
                "{}, {}, {}, {}",
                ep,
                ["?", "ADD", "DEL", "MOD"].get(op as usize).unwrap_or(&"?"),
                fd,
                e.map_or("-".into(), |(a, b)| format!("{:#x} key {:#x}", a, b))
            )
        },
        &r,
    );
    ret(r) as c_int
}

unsafe fn sim_epoll_wait(ep: c_int, evs: *mut libc::epoll_event, max: c_int, timeout: Option<u64>) -> Result<c_long, i32> {
    crate::exec::kernel_wait(true);
    let r = sim_epoll_wait1(ep, evs, max, timeout);
    crate::exec::kernel_wait(false);
    r
}

unsafe fn sim_epoll_wait1(ep: c_int, evs: *mut libc::epoll_event, max: c_int, timeout: Option<u64>) -> Result<c_long, i32> {
    if max <= 0 {
        return Err(libc::EINVAL);
    }
    let (eid, _) = s().k.epoll_mut(ep)?;
    let deadline = timeout.map_or(NEVER, |t| s().now.saturating_add(t));
    let mut intr_at = NEVER;
    let mut first = true;
    let mut woke_intr = false;
    loop {
        let got = s().k.epoll_collect(eid, max as usize);
        if !got.is_empty() {
            for (i, (m, d)) in got.iter().enumerate() {
                std::ptr::write_unaligned(evs.add(i), libc::epoll_event { events: *m, u64: *d });
            }
            return Ok(got.len() as c_long);
        }
        if woke_intr {
            crate::exec::op_intr();
            return Err(libc::EINTR);
        }
        if timeout == Some(0) || s().now >= deadline {
            return Ok(0);
        }
        if first {
            first = false;
            if let Some(Fault::Intr(ns)) = s().fault(FaultSite::Block, timeout) {
                intr_at = s().now.saturating_add(ns);
            }
        }
        s().logf(|| format!("epoll_wait({}) blocks{}", ep, timeout.map_or(String::new(), |t| format!(" {} ns", t))));
        crate::exec::op_block();
        match block(Blk::Epoll(eid), deadline, intr_at) {
            Wake::Intr => woke_intr = true,
            _ => {}
        }
    }
}

fn ms_ns(ms: c_int) -> Option<u64> {
    if ms < 0 {
        None
    } else {
        Some(ms as u64 * 1_000_000)
    }
}

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut libc::epoll_event, max: c_int, ms: c_int) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_epoll_wait, ep as _, evs as _, max as _, ms as _, 0, 0) as c_int;
    }
    enter("epoll_wait");
    let r = sim_epoll_wait(ep, evs, max, ms_ns(ms));
    leave("epoll_wait", || format!("{}, max {}, {} ms", ep, max, ms), &r);
    ret(r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn epoll_pwait(
    ep: c_int,
    evs: *mut libc::epoll_event,
    max: c_int,
    ms: c_int,
    _sig: *const c_void,
) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_epoll_pwait, ep as _, evs as _, max as _, ms as _, _sig as _, 8) as c_int;
    }
    epoll_wait(ep, evs, max, ms)
}

#[no_mangle]
pub unsafe extern "C" fn epoll_pwait2(
    ep: c_int,
    evs: *mut libc::epoll_event,
    max: c_int,
    ts: *const libc::timespec,
    _sig: *const c_void,
) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_epoll_pwait2, ep as _, evs as _, max as _, ts as _, _sig as _, 8) as c_int;
    }
    enter("epoll_pwait2");
    let t = if ts.is_null() { Ok(None) } else { ts_ns(&*ts).map(Some) };
    let r = match t {
        Ok(t) => sim_epoll_wait(ep, evs, max, t),
        Err(e) => Err(e),
    };
    leave("epoll_pwait2", || format!("{}, max {}", ep, max), &r);
    ret(r) as c_int
}

// ---------------------------------------------------------------- poll

unsafe fn sim_poll(fds: *mut libc::pollfd, n: usize, timeout: Option<u64>) -> Result<c_long, i32> {
    crate::exec::kernel_wait(true);
    let r = sim_poll1(fds, n, timeout);
    crate::exec::kernel_wait(false);
    r
}

unsafe fn sim_poll1(fds: *mut libc::pollfd, n: usize, timeout: Option<u64>) -> Result<c_long, i32> {
    let sl: &mut [libc::pollfd] = if n == 0 { &mut [] } else { std::slice::from_raw_parts_mut(fds, n) };
    if let Some(Fault::Errno(e)) = s().fault(FaultSite::PollMem, None) {
        crate::exec::op_errno(e);
        return Err(e);
    }
    let v: Vec<(i32, u32)> = sl.iter().map(|p| (p.fd, p.events as u16 as u32)).collect();
    let deadline = timeout.map_or(NEVER, |t| s().now.saturating_add(t));
    let mut intr_at = NEVER;
    let mut first = true;
    let mut woke_intr = false;
    loop {
        s().k.poll_touch(&v);
        let m = s().k.poll_scan(&v);
        let c = m.iter().filter(|&&x| x != 0).count();
        if c > 0 {
            for (p, x) in sl.iter_mut().zip(&m) {
                p.revents = *x as i16;
            }
            return Ok(c as c_long);
        }
        if woke_intr {
            crate::exec::op_intr();
            return Err(libc::EINTR);
        }
        if first {
            first = false;
            if let Some(Fault::Intr(ns)) = s().fault(FaultSite::Block, timeout) {
                if timeout == Some(0) || ns == 0 {
                    // A pending signal interrupts even a zero-timeout poll.
                    crate::exec::op_intr();
                    return Err(libc::EINTR);
                }
                intr_at = s().now.saturating_add(ns);
            }
        }
        if timeout == Some(0) || s().now >= deadline {
            for p in sl.iter_mut() {
                p.revents = 0;
            }
            return Ok(0);
        }
        s().logf(|| format!("poll({} fds) blocks{}", n, timeout.map_or(String::new(), |t| format!(" {} ns", t))));
        crate::exec::op_block();
        match block(Blk::Poll(v.clone()), deadline, intr_at) {
            Wake::Intr => woke_intr = true,
            _ => {}
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, ms: c_int) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_poll, fds as _, n as _, ms as _, 0, 0, 0) as c_int;
    }
    enter("poll");
    let r = sim_poll(fds, n as usize, ms_ns(ms));
    leave("poll", || format!("{} fds, {} ms", n, ms), &r);
    ret(r) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn ppoll(
    fds: *mut libc::pollfd,
    n: libc::nfds_t,
    ts: *const libc::timespec,
    sig: *const c_void,
) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_ppoll, fds as _, n as _, ts as _, sig as _, 8, 0) as c_int;
    }
    enter("ppoll");
    let t = if ts.is_null() { Ok(None) } else { ts_ns(&*ts).map(Some) };
    let r = match t {
        Ok(t) => sim_poll(fds, n as usize, t),
        Err(e) => Err(e),
    };
    leave("ppoll", || format!("{} fds", n), &r);
    ret(r) as c_int
}

// ---------------------------------------------------------------- clock

pub const REAL_BASE: u64 = 1_700_000_000_000_000_000;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: c_int, ts: *mut libc::timespec) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_clock_gettime, clock as _, ts as _, 0, 0, 0, 0) as c_int;
    }
    let s = s();
    s.stats.add("clock_reads", 1);
    let c = s.cost;
    s.advance(c);
    let n = if clock == libc::CLOCK_REALTIME || clock == libc::CLOCK_REALTIME_COARSE {
        // The wall clock jumps about; nothing may depend on it.
        s.real_jump = s.real_jump.wrapping_mul(-3).wrapping_add(1_000_000_007) % 1_000_000_000_000;
        (REAL_BASE as i64 + s.now as i64 + s.real_jump) as u64
    } else {
        s.now
    };
    (*ts).tv_sec = (n / 1_000_000_000) as _;
    (*ts).tv_nsec = (n % 1_000_000_000) as _;
    0
}

unsafe fn sim_sleep(ns: u64) -> c_int {
    enter("nanosleep");
    crate::exec::op_nap();
    s().logf(|| format!("nanosleep {} ns", ns));
    sim::sleep(ns);
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_nanosleep, req as _, rem as _, 0, 0, 0, 0) as c_int;
    }
    match ts_ns(&*req) {
        Ok(n) => sim_sleep(n),
        Err(e) => ret(Err(e)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clock: c_int,
    flags: c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    if !in_lib() {
        let r = raw6(libc::SYS_clock_nanosleep, clock as _, flags as _, req as _, rem as _, 0, 0);
        return -r as c_int;
    }
    match ts_ns(&*req) {
        Ok(n) => sim_sleep(if flags & libc::TIMER_ABSTIME != 0 { n.saturating_sub(s().now) } else { n }),
        Err(e) => e,
    }
}

#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    if !in_lib() {
        let ts = libc::timespec { tv_sec: (us / 1_000_000) as _, tv_nsec: (us % 1_000_000) as i64 * 1000 };
        return pass(libc::SYS_nanosleep, &ts as *const _ as _, 0, 0, 0, 0, 0) as c_int;
    }
    sim_sleep(us as u64 * 1000)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !in_lib() {
        return pass(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int;
    }
    enter("sched_yield");
    crate::exec::op_nap();
    // Let somebody else run if anybody can.
    let d = s().now + 1000;
    block(Blk::Sleep, d, NEVER);
    0
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, flags: c_uint) -> isize {
    if !sim::active() {
        return pass(libc::SYS_getrandom, buf as _, n as _, flags as _, 0, 0, 0) as isize;
    }
    let s = s();
    for i in 0..n {
        s.rand_state = crate::rng::mix(s.rand_state.wrapping_add(0x9e3779b97f4a7c15));
        *(buf as *mut u8).add(i) = s.rand_state as u8;
    }
    n as isize
}

// ---------------------------------------------------------------- syscall(2)

const FUTEX_WAIT: c_int = 0;
const FUTEX_WAKE: c_int = 1;
const FUTEX_WAIT_BITSET: c_int = 9;
const FUTEX_WAKE_BITSET: c_int = 10;

unsafe fn sim_futex(addr: usize, op: c_int, val: u32, ts: *const libc::timespec) -> Result<c_long, i32> {
    match op & 127 {
        FUTEX_WAIT | FUTEX_WAIT_BITSET => {
            if (*(addr as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) != val {
                return Err(libc::EAGAIN);
            }
            let deadline = if ts.is_null() {
                NEVER
            } else {
                let n = ts_ns(&*ts)?;
                if op & 127 == FUTEX_WAIT {
                    s().now.saturating_add(n)
                } else if op & 256 != 0 {
                    n.saturating_sub(REAL_BASE)
                } else {
                    n
                }
            };
            let mut intr_at = NEVER;
            if let Some(Fault::Intr(ns)) = s().fault(FaultSite::Futex, None) {
                intr_at = s().now.saturating_add(ns);
            }
            let me = s().cur;
            s().futexq.push((addr, me));
            s().logf(|| "futex wait".to_string());
            let w = block(Blk::Futex(addr), deadline, intr_at);
            s().futexq.retain(|x| x.1 != me);
            match w {
                Wake::Cond => Ok(0),
                Wake::Intr => Ok(0), // spurious
                Wake::Timeout => {
                    crate::exec::op_nap();
                    Err(libc::ETIMEDOUT)
                }
            }
        }
        FUTEX_WAKE | FUTEX_WAKE_BITSET => {
            let s = s();
            let mut n = 0;
            while n < val as i64 {
                let Some(i) = s.futexq.iter().position(|x| x.0 == addr) else { break };
                let (_, t) = s.futexq.remove(i);
                s.threads[t].futex_woken = true;
                n += 1;
            }
            Ok(n)
        }
        _ => Err(libc::ENOSYS),
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: c_long,
    b: c_long,
    c: c_long,
    d: c_long,
    e: c_long,
    f: c_long,
) -> c_long {
    if !sim::active() {
        return pass(n, a, b, c, d, e, f);
    }
    if n == libc::SYS_getrandom {
        return getrandom(a as _, b as _, c as _) as c_long;
    }
    if !in_lib() {
        return pass(n, a, b, c, d, e, f);
    }
    match n {
        libc::SYS_futex => {
            enter("futex");
            let r = sim_futex(a as usize, b as c_int, c as u32, d as *const libc::timespec);
            leave("futex", || format!("op {} val {}", b & 127, c), &r);
            ret(r)
        }
        libc::SYS_eventfd2 => sim_eventfd(a as u32 as u64, b as c_int) as c_long,
        libc::SYS_eventfd => sim_eventfd(a as u32 as u64, 0) as c_long,
        libc::SYS_gettid => 1 + s().cur as c_long,
        libc::SYS_read => read(a as _, b as _, c as _) as c_long,
        libc::SYS_write => write(a as _, b as _, c as _) as c_long,
        libc::SYS_close => close(a as _) as c_long,
        libc::SYS_pipe => pipe(a as _) as c_long,
        libc::SYS_pipe2 => pipe2(a as _, b as _) as c_long,
        libc::SYS_fcntl => fcntl(a as _, b as _, c as _) as c_long,
        libc::SYS_ioctl => ioctl(a as _, b as _, c as _) as c_long,
        libc::SYS_dup => dup(a as _) as c_long,
        libc::SYS_dup2 => dup2(a as _, b as _) as c_long,
        libc::SYS_dup3 => dup3(a as _, b as _, c as _) as c_long,
        libc::SYS_epoll_create => epoll_create(a as _) as c_long,
        libc::SYS_epoll_create1 => epoll_create1(a as _) as c_long,
        libc::SYS_epoll_ctl => epoll_ctl(a as _, b as _, c as _, d as _) as c_long,
        libc::SYS_epoll_wait => epoll_wait(a as _, b as _, c as _, d as _) as c_long,
        libc::SYS_epoll_pwait => epoll_pwait(a as _, b as _, c as _, d as _, e as _) as c_long,
        libc::SYS_epoll_pwait2 => epoll_pwait2(a as _, b as _, c as _, d as _, e as _) as c_long,
        libc::SYS_poll => poll(a as _, b as _, c as _) as c_long,
        libc::SYS_ppoll => ppoll(a as _, b as _, c as _, d as _) as c_long,
        libc::SYS_timerfd_create => timerfd_create(a as _, b as _) as c_long,
        libc::SYS_timerfd_settime => timerfd_settime(a as _, b as _, c as _, d as _) as c_long,
        libc::SYS_timerfd_gettime => timerfd_gettime(a as _, b as _) as c_long,
        libc::SYS_clock_gettime => clock_gettime(a as _, b as _) as c_long,
        libc::SYS_nanosleep => nanosleep(a as _, b as _) as c_long,
        libc::SYS_clock_nanosleep => clock_nanosleep(a as _, b as _, c as _, d as _) as c_long,
        libc::SYS_sched_yield => sched_yield() as c_long,
        _ => {
            // A system call the simulated kernel does not have.
            s().stats.add("unknown_syscalls", 1);
            ret(Err(libc::ENOSYS))
        }
    }
}

// ---------------------------------------------------------------- atomics

extern "C" {
    static __executable_start: u8;
    static _end: u8;
}

/// Relaxed loads of statics (tracing's level filter and call-site caches) are not scheduling points.
#[inline(always)]
fn noise(p: usize, mo: c_int) -> bool {
    unsafe {
        mo == 0 && p >= &__executable_start as *const u8 as usize && p < &_end as *const u8 as usize
    }
}

#[inline(always)]
fn atomic_point(p: usize, mo: c_int, load: bool) {
    if in_lib() && !(load && noise(p, mo)) {
        let s = s();
        s.stats.add("atomics", 1);
        s.here(s.threads[s.cur].site.wrapping_add(1) | 1 << 63);
        yield_point();
    }
}

macro_rules! atomics {
    ($t:ty, $at:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident,
     $casv:ident, $cass:ident, $casw:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $t, mo: c_int) -> $t {
            atomic_point(p as usize, mo, true);
            (*(p as *const $at)).load(std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, mo: c_int) {
            atomic_point(p as usize, mo, false);
            (*(p as *const $at)).store(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, mo: c_int) -> $t {
            atomic_point(p as usize, mo, false);
            (*(p as *const $at)).swap(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *mut $t, v: $t, mo: c_int) -> $t {
            atomic_point(p as usize, mo, false);
            (*(p as *const $at)).fetch_add(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, mo: c_int) -> $t {
            atomic_point(p as usize, mo, false);
            (*(p as *const $at)).fetch_sub(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *mut $t, v: $t, mo: c_int) -> $t {
            atomic_point(p as usize, mo, false);
            (*(p as *const $at)).fetch_and(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *mut $t, v: $t, mo: c_int) -> $t {
            atomic_point(p as usize, mo, false);
            (*(p as *const $at)).fetch_or(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, mo: c_int) -> $t {
            atomic_point(p as usize, mo, false);
            (*(p as *const $at)).fetch_xor(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, mo: c_int) -> $t {
            atomic_point(p as usize, mo, false);
            (*(p as *const $at)).fetch_nand(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casv(p: *mut $t, c: $t, v: $t, mo: c_int, _mo2: c_int) -> $t {
            atomic_point(p as usize, mo, false);
            match (*(p as *const $at)).compare_exchange(
                c,
                v,
                std::sync::atomic::Ordering::SeqCst,
                std::sync::atomic::Ordering::SeqCst,
            ) {
                Ok(x) | Err(x) => x,
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cass(p: *mut $t, c: *mut $t, v: $t, mo: c_int, mo2: c_int) -> c_int {
            let want = *c;
            let got = $casv(p, want, v, mo, mo2);
            if got == want {
                1
            } else {
                *c = got;
                0
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casw(p: *mut $t, c: *mut $t, v: $t, mo: c_int, mo2: c_int) -> c_int {
            $cass(p, c, v, mo, mo2)
        }
    };
}

use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8};
atomics!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add,
    __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand,
    __tsan_atomic8_compare_exchange_val, __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak);
atomics!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add,
    __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand,
    __tsan_atomic16_compare_exchange_val, __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak);
atomics!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add,
    __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand,
    __tsan_atomic32_compare_exchange_val, __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak);
atomics!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add,
    __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand,
    __tsan_atomic64_compare_exchange_val, __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak);

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(mo: c_int) {
    atomic_point(0, mo, false);
    std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_mo: c_int) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_entry(_: *mut c_void) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_exit() {}
