//! The seams towards Windows: the functions `windows-sys` imports, defined by this binary.

use std::ffi::{c_int, c_void};

use crate::atom::{enter, leave, set_errno};
use crate::kernel::*;
use crate::oracle::note;
use crate::sim::{block, in_lib, inside, s, Blk, Fault, FaultSite, NEVER};

type H = usize;

/// A failure the scenario asks of the n-th call of a creation, or the search of any call.
fn fault(name: &'static str) -> Option<usize> {
    let s = s();
    let cur = s.cur;
    if let Some(c) = s.w.creating.get_mut(cur).and_then(|c| c.as_mut()) {
        let n = c.n;
        c.n += 1;
        if c.fail_at == Some(n) {
            c.failed = true;
            crate::exec::op_fault();
            s.stats.add("fault_creation_call_failed", 1);
            s.logf(|| format!("creation call failed: {}", name));
            return Some(n as usize & 1);
        }
        return None;
    }
    // A callback has nobody to report a failure to: its registration waits for the next change.
    if s.threads[cur].cur_op == crate::sim::NO_OP {
        let n = *s.k.running.get(&cur)?;
        let Some(Fault::Errno(e)) = s.fault(FaultSite::Call, None) else { return None };
        let (p, ev) = (s.k.waits[n].p, s.k.waits[n].ev);
        let at = s.next_seq();
        s.k.refused.push((p, ev, at));
        s.stats.add("fault_callback_call_failed", 1);
        return Some(e as usize & 1);
    }
    match s.fault(FaultSite::Call, None) {
        Some(Fault::Errno(e)) => {
            crate::exec::op_fault();
            Some(e as usize & 1)
        }
        _ => None,
    }
}

fn err(e: i32) -> i32 {
    set_errno(e);
    0
}

const DOS: [i32; 2] = [ERROR_NOT_ENOUGH_MEMORY, ERROR_NO_SYSTEM_RESOURCES];
const NT: [i32; 2] = [STATUS_NO_MEMORY, STATUS_INSUFFICIENT_RESOURCES];

#[no_mangle]
unsafe extern "system" fn CreateIoCompletionPort(file: H, port: H, key: usize, _threads: u32) -> H {
    if !in_lib() {
        return err(ERROR_NOT_ENOUGH_MEMORY) as H;
    }
    let _inside = inside();
    enter("CreateIoCompletionPort");
    let r = (|| {
        if let Some(e) = fault("CreateIoCompletionPort") {
            return Err(DOS[e]);
        }
        let k = &mut s().k;
        if file == usize::MAX {
            k.ports.push(Port::default());
            let n = k.ports.len() - 1;
            return Ok(k.open(Obj::Port(n)));
        }
        let p = k.port_of(port).ok_or(ERROR_INVALID_HANDLE)?;
        match k.handles.get_mut(&file) {
            Some(Obj::Afd(x @ None)) => {
                *x = Some(p);
                Ok(port)
            }
            Some(Obj::Afd(Some(_))) => Err(87),
            _ => Err(ERROR_INVALID_HANDLE),
        }
    })();
    leave("CreateIoCompletionPort", || format!("{:#x}, {:#x}, key {:#x}", file as isize, port, key), &r);
    match r {
        Ok(h) => h,
        Err(e) => err(e) as H,
    }
}

#[no_mangle]
unsafe extern "system" fn SetFileCompletionNotificationModes(file: H, flags: u8) -> i32 {
    if !in_lib() {
        return err(ERROR_INVALID_HANDLE);
    }
    let _inside = inside();
    enter("SetFileCompletionNotificationModes");
    let r = match fault("SetFileCompletionNotificationModes") {
        Some(e) => Err(DOS[e]),
        None => {
            if flags & 1 != 0 {
                note("port_skipped", "completions of polls that succeed at once were switched off".into());
            }
            match s().k.handles.get(&file) {
                Some(Obj::Afd(_)) => Ok(1),
                _ => Err(ERROR_INVALID_HANDLE),
            }
        }
    };
    leave("SetFileCompletionNotificationModes", || format!("{:#x}, {}", file, flags), &r);
    r.map_or_else(err, |_| 1)
}

#[no_mangle]
unsafe extern "system" fn PostQueuedCompletionStatus(port: H, bytes: u32, key: usize, ov: usize) -> i32 {
    if !in_lib() {
        return err(ERROR_INVALID_HANDLE);
    }
    let _inside = inside();
    enter("PostQueuedCompletionStatus");
    let r = match fault("PostQueuedCompletionStatus") {
        Some(e) => Err(DOS[e]),
        None => match s().k.port_of(port) {
            Some(p) => {
                s().k.ports[p].q.push_back(Pkt { ov, key, bytes });
                Ok(1)
            }
            None => Err(ERROR_INVALID_HANDLE),
        },
    };
    leave("PostQueuedCompletionStatus", || format!("{:#x}", port), &r);
    r.map_or_else(err, |_| 1)
}

#[repr(C)]
struct Entry {
    key: usize,
    ov: usize,
    internal: usize,
    bytes: u32,
}

#[no_mangle]
unsafe extern "system" fn GetQueuedCompletionStatusEx(
    port: H,
    out: *mut Entry,
    max: u32,
    removed: *mut u32,
    ms: u32,
    _alertable: i32,
) -> i32 {
    if !in_lib() {
        return err(ERROR_INVALID_HANDLE);
    }
    let _inside = inside();
    enter("GetQueuedCompletionStatusEx");
    crate::exec::kernel_wait(true);
    let r = (|| {
        let p = s().k.port_of(port).ok_or(ERROR_INVALID_HANDLE)?;
        if max == 0 {
            return Err(87);
        }
        let ns = if ms == u32::MAX { None } else { Some(ms as u64 * 1_000_000) };
        let mut deadline = ns.map_or(NEVER, |n| s().now.saturating_add(n));
        let mut first = true;
        loop {
            let q = &mut s().k.ports[p].q;
            if !q.is_empty() {
                let n = q.len().min(max as usize);
                for i in 0..n {
                    let e = q.pop_front().unwrap();
                    out.add(i).write(Entry { key: e.key, ov: e.ov, internal: 0, bytes: e.bytes });
                }
                *removed = n as u32;
                if q.is_empty() {
                    crate::exec::op_emptied();
                }
                return Ok(n);
            }
            crate::exec::op_emptied();
            if ms == 0 || s().now >= deadline {
                return Err(libc::ETIMEDOUT);
            }
            if first {
                first = false;
                if let Some(n) = ns {
                    // Ticks are coarse: a timeout may end a little early.
                    if let Some(Fault::Intr(d)) = s().fault(FaultSite::Timer, Some(n)) {
                        deadline = deadline.saturating_sub(d.min(n - 1));
                    }
                }
            }
            s().logf(|| format!("GetQueuedCompletionStatusEx({:#x}) blocks {} ms", port, ms as i32));
            crate::exec::op_block();
            block(Blk::Port(p), deadline, NEVER);
        }
    })();
    crate::exec::kernel_wait(false);
    leave("GetQueuedCompletionStatusEx", || format!("{:#x}, max {}, {} ms", port, max, ms as i32), &r);
    r.map_or_else(err, |_| 1)
}

#[no_mangle]
unsafe extern "system" fn CloseHandle(h: H) -> i32 {
    if !in_lib() {
        return err(ERROR_INVALID_HANDLE);
    }
    let _inside = inside();
    enter("CloseHandle");
    let r = match s().k.handles.get(&h) {
        Some(Obj::Port(_)) => {
            s().k.close(h);
            Ok(1)
        }
        Some(Obj::Afd(_)) => {
            s().k.close(h);
            s().k.abandon(h);
            Ok(1)
        }
        Some(o) => {
            let o = *o;
            note("bad_close", format!("the library closed handle {:#x}, a {:?}", h, o));
            Err(ERROR_INVALID_HANDLE)
        }
        None => {
            note("bad_close", format!("the library closed handle {:#x}, which is not open", h));
            Err(ERROR_INVALID_HANDLE)
        }
    };
    leave("CloseHandle", || format!("{:#x}", h), &r);
    r.map_or_else(err, |_| 1)
}

// ---------------------------------------------------------------- ntdll

#[no_mangle]
unsafe extern "system" fn GetModuleHandleW(_name: *const u16) -> H {
    0x7ff0_0000
}

#[no_mangle]
unsafe extern "system" fn GetProcAddress(_m: H, name: *const i8) -> *const c_void {
    match std::ffi::CStr::from_ptr(name).to_bytes() {
        b"NtCancelIoFileEx" => NtCancelIoFileEx as *const c_void,
        b"NtCreateFile" => NtCreateFile as *const c_void,
        b"NtDeviceIoControlFile" => NtDeviceIoControlFile as *const c_void,
        b"RtlNtStatusToDosError" => RtlNtStatusToDosError as *const c_void,
        _ => std::ptr::null(),
    }
}

unsafe extern "system" fn RtlNtStatusToDosError(st: i32) -> u32 {
    (match st {
        STATUS_SUCCESS => 0,
        STATUS_PENDING => ERROR_IO_PENDING,
        STATUS_NO_MEMORY => ERROR_NOT_ENOUGH_MEMORY,
        STATUS_INSUFFICIENT_RESOURCES => ERROR_NO_SYSTEM_RESOURCES,
        STATUS_INVALID_HANDLE => ERROR_INVALID_HANDLE,
        STATUS_NOT_FOUND => ERROR_NOT_FOUND,
        STATUS_CANCELLED => 995,
        _ => 317,
    }) as u32
}

#[allow(clippy::too_many_arguments)]
unsafe extern "system" fn NtCreateFile(
    out: *mut H,
    _access: u32,
    _attr: usize,
    _iosb: usize,
    _size: usize,
    _fa: u32,
    _share: u32,
    _disp: u32,
    _opt: u32,
    _ea: usize,
    _ealen: u32,
) -> i32 {
    if !in_lib() {
        return STATUS_NO_MEMORY;
    }
    let _inside = inside();
    enter("NtCreateFile");
    let r = match fault("NtCreateFile") {
        Some(e) => Err(NT[e]),
        None => {
            let h = s().k.open(Obj::Afd(None));
            *out = h;
            Ok(h)
        }
    };
    leave("NtCreateFile", || "AFD".into(), &r);
    r.err().unwrap_or(STATUS_SUCCESS)
}

const IOCTL_AFD_POLL: u32 = 0x12024;

#[allow(clippy::too_many_arguments)]
unsafe extern "system" fn NtDeviceIoControlFile(
    file: H,
    _event: H,
    _apc: usize,
    ctx: usize,
    iosb: usize,
    code: u32,
    inb: usize,
    inlen: u32,
    outb: usize,
    outlen: u32,
) -> i32 {
    let _inside = inside();
    enter("NtDeviceIoControlFile");
    let mut what = String::new();
    let r = (|| {
        if let Some(e) = fault("NtDeviceIoControlFile") {
            return Err(NT[e]);
        }
        let k = &mut s().k;
        match k.handles.get(&file) {
            Some(Obj::Afd(Some(_))) => {}
            _ => return Err(STATUS_INVALID_HANDLE),
        }
        if code != IOCTL_AFD_POLL || inlen < 32 || outlen < 32 || inb != outb || ctx != iosb {
            note("bad_poll", format!("not a poll: code {:#x}, buffers {} {}", code, inlen, outlen));
        }
        let count = ((inb + 8) as *const u32).read();
        let handle = ((inb + 16) as *const usize).read();
        let mask = ((inb + 24) as *const u32).read();
        let timeout = (inb as *const i64).read();
        if count != 1 || timeout != i64::MAX {
            note("bad_poll", format!("a poll of {} sockets with timeout {}", count, timeout));
        }
        if k.ops.iter().any(|o| o.iosb == iosb) || k.ports.iter().any(|p| p.q.iter().any(|x| x.ov == iosb)) {
            note("block_reused", "a poll was started with a status block that is still in flight".into());
        }
        what = format!("poll {:#x} mask {:#x}", handle, mask);
        let Some(x) = k.sock_of(handle, true) else { return Err(STATUS_INVALID_HANDLE) };
        (iosb as *mut i32).write(STATUS_PENDING);
        s().stats.add("afd_polls", 1);
        Ok(if s().k.poll(Op { iosb, info: inb, sock: x, mask, afd: file }) {
            s().stats.add("afd_polls_completed_at_once", 1);
            STATUS_SUCCESS
        } else {
            STATUS_PENDING
        })
    })();
    leave("NtDeviceIoControlFile", || format!("{:#x} {}", file, what), &r);
    match r {
        Ok(v) => v,
        Err(e) => e,
    }
}

unsafe extern "system" fn NtCancelIoFileEx(file: H, iosb: usize, out: usize) -> i32 {
    let _inside = inside();
    enter("NtCancelIoFileEx");
    let r = match s().k.handles.get(&file) {
        Some(Obj::Afd(_)) => {
            let st = if s().k.cancel(file, iosb) { STATUS_SUCCESS } else { STATUS_NOT_FOUND };
            (out as *mut i32).write(st);
            s().stats.add("afd_cancels", 1);
            Ok(st)
        }
        _ => Err(STATUS_INVALID_HANDLE),
    };
    leave("NtCancelIoFileEx", || format!("{:#x}", file), &r);
    match r {
        Ok(v) => v,
        Err(e) => e,
    }
}

// ---------------------------------------------------------------- sockets

const SIO_BASE_HANDLE: u32 = 0x4800_0022;
const SIO_BSP_HANDLE_POLL: u32 = 0x4800_001D;

#[allow(clippy::too_many_arguments)]
#[no_mangle]
unsafe extern "system" fn WSAIoctl(
    sock: H,
    code: u32,
    _in: usize,
    _inlen: u32,
    out: *mut usize,
    outlen: u32,
    bytes: *mut u32,
    _ov: usize,
    _cb: usize,
) -> c_int {
    if !in_lib() {
        set_errno(libc::EINVAL);
        return -1;
    }
    let _inside = inside();
    enter("WSAIoctl");
    let k = &s().k;
    let r = match k.handles.get(&sock) {
        Some(Obj::Sock(x)) => {
            let v = &k.srcs[*x];
            let base = v.base;
            let layered = v.base != v.handle;
            match code {
                // A provider that hides the base of its sockets.
                SIO_BASE_HANDLE if layered && sock == v.handle => Err(10045),
                SIO_BASE_HANDLE => Ok(base),
                SIO_BSP_HANDLE_POLL => Ok(base),
                _ => Err(10045),
            }
        }
        _ => Err(libc::EINVAL),
    };
    leave("WSAIoctl", || format!("{:#x}, {:#x}", sock, code), &r);
    match r {
        Ok(h) => {
            if outlen >= 8 {
                *out = h;
            }
            *bytes = 8;
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

// ---------------------------------------------------------------- registered waits

#[no_mangle]
unsafe extern "system" fn RegisterWaitForSingleObject(
    out: *mut H,
    obj: H,
    cb: usize,
    ctx: usize,
    _ms: u32,
    flags: u32,
) -> i32 {
    if !in_lib() {
        return err(ERROR_INVALID_HANDLE);
    }
    let _inside = inside();
    enter("RegisterWaitForSingleObject");
    let r = (|| {
        if let Some(e) = fault("RegisterWaitForSingleObject") {
            return Err(DOS[e]);
        }
        let at = s().next_seq();
        let op = s().threads[s().cur].cur_op;
        let p = s().w.hist.ops.get(op).map_or(0, |o| o.p);
        let k = &mut s().k;
        let Some(Obj::Event(x)) = k.handles.get(&obj).copied() else { return Err(ERROR_INVALID_HANDLE) };
        if flags & 8 == 0 {
            note("bad_wait", "a wait that fires again and again by itself".into());
        }
        k.waits.push(Wait { ev: x, handle: obj, cb, ctx, st: WaitSt::Armed, at, p, gone: false });
        let n = k.waits.len() - 1;
        let h = k.open(Obj::Wait(n));
        *out = h;
        k.event_changed(x);
        Ok(h)
    })();
    leave("RegisterWaitForSingleObject", || format!("{:#x}", obj), &r);
    r.map_or_else(err, |_| 1)
}

#[no_mangle]
unsafe extern "system" fn UnregisterWait(h: H) -> i32 {
    if !in_lib() {
        return err(ERROR_INVALID_HANDLE);
    }
    let _inside = inside();
    enter("UnregisterWait");
    let k = &mut s().k;
    let r = match k.handles.get(&h).copied() {
        Some(Obj::Wait(n)) => {
            k.close(h);
            let w = &mut k.waits[n];
            w.gone = true;
            match w.st {
                WaitSt::Armed => {
                    w.st = WaitSt::Done;
                    Ok(1)
                }
                WaitSt::Done => Ok(1),
                _ => Err(ERROR_IO_PENDING),
            }
        }
        _ => {
            note("bad_close", format!("the library unregistered wait {:#x}, which does not exist", h));
            Err(ERROR_INVALID_HANDLE)
        }
    };
    leave("UnregisterWait", || format!("{:#x}", h), &r);
    r.map_or_else(err, |_| 1)
}
