//! Seams that do not depend on the platform: atomics, locks, clocks, randomness.

use std::arch::asm;
use std::ffi::{c_int, c_long, c_uint, c_void};

use crate::sim::{self, block, in_lib, inside, s, yield_point, Blk, Fault, FaultSite, Wake, NEVER};

pub unsafe fn raw6(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut c_int;
}

pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}

unsafe fn pass(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r = raw6(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

fn ret(r: Result<c_long, i32>) -> c_long {
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

/// Entry of every simulated system call.
pub fn enter(name: &'static str) {
    s().here(crate::rng::hash_bytes(1, name.as_bytes()) >> 8);
    yield_point();
    let s = s();
    s.stats.add("syscalls", 1);
    let c = s.cost;
    s.advance(c);
    let t = &mut s.threads[s.cur];
    t.spin = 0;
    if name != "sched_yield" {
        t.gave_way = 0;
    }
}

pub fn leave<T: std::fmt::Debug, E: std::fmt::Debug>(name: &'static str, args: impl FnOnce() -> String, r: &Result<T, E>) {
    s().logf(|| match r {
        Ok(v) => format!("{}({}) = {:?}", name, args(), v),
        Err(e) => format!("{}({}) fails: {:?}", name, args(), e),
    });
}

fn ts_ns(t: &libc::timespec) -> Result<u64, i32> {
    if t.tv_sec < 0 || !(0..1_000_000_000).contains(&t.tv_nsec) {
        return Err(libc::EINVAL);
    }
    Ok((t.tv_sec as u64).saturating_mul(1_000_000_000).saturating_add(t.tv_nsec as u64))
}

// ---------------------------------------------------------------- clock

pub const REAL_BASE: u64 = 1_700_000_000_000_000_000;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: c_int, ts: *mut libc::timespec) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_clock_gettime, clock as _, ts as _, 0, 0, 0, 0) as c_int;
    }
    let _inside = inside();
    let s = s();
    s.stats.add("clock_reads", 1);
    let c = s.cost;
    s.advance(c);
    let n = if clock == libc::CLOCK_REALTIME || clock == libc::CLOCK_REALTIME_COARSE {
        // The wall clock jumps about; nothing may depend on it.
        s.real_jump = s.real_jump.wrapping_mul(-3).wrapping_add(1_000_000_007) % 1_000_000_000_000;
        (REAL_BASE as i64 + s.now as i64 + s.real_jump) as u64
    } else {
        s.now
    };
    (*ts).tv_sec = (n / 1_000_000_000) as _;
    (*ts).tv_nsec = (n % 1_000_000_000) as _;
    0
}

unsafe fn sim_sleep(ns: u64) -> c_int {
    enter("nanosleep");
    s().logf(|| format!("nanosleep {} ns", ns));
    sim::sleep(ns);
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !in_lib() {
        return pass(libc::SYS_nanosleep, req as _, rem as _, 0, 0, 0, 0) as c_int;
    }
    let _inside = inside();
    match ts_ns(&*req) {
        Ok(n) => sim_sleep(n),
        Err(e) => ret(Err(e)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clock: c_int,
    flags: c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    if !in_lib() {
        let r = raw6(libc::SYS_clock_nanosleep, clock as _, flags as _, req as _, rem as _, 0, 0);
        return -r as c_int;
    }
    let _inside = inside();
    match ts_ns(&*req) {
        Ok(n) => sim_sleep(if flags & libc::TIMER_ABSTIME != 0 { n.saturating_sub(s().now) } else { n }),
        Err(e) => e,
    }
}

#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    if !in_lib() {
        let ts = libc::timespec { tv_sec: (us / 1_000_000) as _, tv_nsec: (us % 1_000_000) as i64 * 1000 };
        return pass(libc::SYS_nanosleep, &ts as *const _ as _, 0, 0, 0, 0, 0) as c_int;
    }
    let _inside = inside();
    sim_sleep(us as u64 * 1000)
}

/// How many entries a bounded queue has that the library makes.
#[no_mangle]
pub extern "C" fn polsim_queue_cap(asked: usize) -> usize {
    match s().w.sc.queue {
        0 => asked,
        n => asked.min(n),
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !in_lib() {
        return pass(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int;
    }
    let _inside = inside();
    enter("sched_yield");
    // Let somebody else run if anybody can.
    give_way();
    0
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, flags: c_uint) -> isize {
    if !sim::active() {
        return pass(libc::SYS_getrandom, buf as _, n as _, flags as _, 0, 0, 0) as isize;
    }
    let s = s();
    for i in 0..n {
        s.rand_state = crate::rng::mix(s.rand_state.wrapping_add(0x9e3779b97f4a7c15));
        *(buf as *mut u8).add(i) = s.rand_state as u8;
    }
    n as isize
}

// ---------------------------------------------------------------- syscall(2)

const FUTEX_WAIT: c_int = 0;
const FUTEX_WAKE: c_int = 1;
const FUTEX_WAIT_BITSET: c_int = 9;
const FUTEX_WAKE_BITSET: c_int = 10;

unsafe fn sim_futex(addr: usize, op: c_int, val: u32, ts: *const libc::timespec) -> Result<c_long, i32> {
    match op & 127 {
        FUTEX_WAIT | FUTEX_WAIT_BITSET => {
            if (*(addr as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) != val {
                return Err(libc::EAGAIN);
            }
            let deadline = if ts.is_null() {
                NEVER
            } else {
                let n = ts_ns(&*ts)?;
                if op & 127 == FUTEX_WAIT {
                    s().now.saturating_add(n)
                } else if op & 256 != 0 {
                    n.saturating_sub(REAL_BASE)
                } else {
                    n
                }
            };
            let mut intr_at = NEVER;
            if let Some(Fault::Intr(ns)) = s().fault(FaultSite::Futex, None) {
                intr_at = s().now.saturating_add(ns);
            }
            let me = s().cur;
            s().futexq.push((addr, me));
            s().logf(|| "futex wait".to_string());
            let w = block(Blk::Futex(addr), deadline, intr_at);
            s().futexq.retain(|x| x.1 != me);
            match w {
                Wake::Cond => Ok(0),
                Wake::Intr => Ok(0), // spurious
                Wake::Timeout => Err(libc::ETIMEDOUT),
            }
        }
        FUTEX_WAKE | FUTEX_WAKE_BITSET => {
            let s = s();
            let mut n = 0;
            while n < val as i64 {
                let Some(i) = s.futexq.iter().position(|x| x.0 == addr) else { break };
                let (_, t) = s.futexq.remove(i);
                s.threads[t].futex_woken = true;
                n += 1;
            }
            Ok(n)
        }
        _ => Err(libc::ENOSYS),
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: c_long,
    b: c_long,
    c: c_long,
    d: c_long,
    e: c_long,
    f: c_long,
) -> c_long {
    if !sim::active() {
        return pass(n, a, b, c, d, e, f);
    }
    if n == libc::SYS_getrandom {
        return getrandom(a as _, b as _, c as _) as c_long;
    }
    if !in_lib() {
        return pass(n, a, b, c, d, e, f);
    }
    let _inside = inside();
    match n {
        libc::SYS_futex => {
            enter("futex");
            let r = sim_futex(a as usize, b as c_int, c as u32, d as *const libc::timespec);
            leave("futex", || format!("op {} val {}", b & 127, c), &r);
            ret(r)
        }
        libc::SYS_gettid => 1 + s().cur as c_long,
        libc::SYS_clock_gettime => clock_gettime(a as _, b as _) as c_long,
        libc::SYS_nanosleep => nanosleep(a as _, b as _) as c_long,
        libc::SYS_clock_nanosleep => clock_nanosleep(a as _, b as _, c as _, d as _) as c_long,
        libc::SYS_sched_yield => sched_yield() as c_long,
        _ => {
            // A system call the simulated kernel does not have.
            s().stats.add("unknown_syscalls", 1);
            ret(Err(libc::ENOSYS))
        }
    }
}

// ---------------------------------------------------------------- atomics

extern "C" {
    static __executable_start: u8;
    static _end: u8;
}

/// Relaxed loads of statics (tracing's level filter and call-site caches) are not scheduling points.
#[inline(always)]
fn noise(p: usize, mo: c_int) -> bool {
    unsafe {
        mo == 0 && p >= &__executable_start as *const u8 as usize && p < &_end as *const u8 as usize
    }
}

#[inline(always)]
fn atomic_point(p: usize, mo: c_int, load: bool) {
    if in_lib() && !(load && noise(p, mo)) {
        let _inside = inside();
        let s = s();
        s.stats.add("atomics", 1);
        s.here(s.threads[s.cur].site.wrapping_add(1) | 1 << 63);
        yield_point();
        spun();
    }
}

/// A thread that only looks at memory may be waiting for another one, as a full queue's users do: it gives way.
#[cold]
fn give_way() {
    let s = s();
    let t = &mut s.threads[s.cur];
    t.spin = 0;
    let n = t.gave_way;
    t.gave_way += 1;
    let d = s.now + (1000 << (n / 4).min(14));
    s.stats.add("spinners_gave_way", 1);
    block(Blk::Sleep, d, NEVER);
}

#[inline(always)]
fn spun() {
    let s = s();
    let t = &mut s.threads[s.cur];
    t.spin += 1;
    if t.spin > 300 {
        give_way();
    }
}

macro_rules! atomics {
    ($t:ty, $at:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident,
     $casv:ident, $cass:ident, $casw:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $t, mo: c_int) -> $t {
            atomic_point(p as usize, mo, true);
            (*(p as *const $at)).load(std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, mo: c_int) {
            atomic_point(p as usize, mo, false);
            (*(p as *const $at)).store(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, mo: c_int) -> $t {
            atomic_point(p as usize, mo, false);
            (*(p as *const $at)).swap(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *mut $t, v: $t, mo: c_int) -> $t {
            atomic_point(p as usize, mo, false);
            (*(p as *const $at)).fetch_add(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, mo: c_int) -> $t {
            atomic_point(p as usize, mo, false);
            (*(p as *const $at)).fetch_sub(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *mut $t, v: $t, mo: c_int) -> $t {
            atomic_point(p as usize, mo, false);
            (*(p as *const $at)).fetch_and(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *mut $t, v: $t, mo: c_int) -> $t {
            atomic_point(p as usize, mo, false);
            (*(p as *const $at)).fetch_or(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, mo: c_int) -> $t {
            atomic_point(p as usize, mo, false);
            (*(p as *const $at)).fetch_xor(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, mo: c_int) -> $t {
            atomic_point(p as usize, mo, false);
            (*(p as *const $at)).fetch_nand(v, std::sync::atomic::Ordering::SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casv(p: *mut $t, c: $t, v: $t, mo: c_int, _mo2: c_int) -> $t {
            atomic_point(p as usize, mo, false);
            match (*(p as *const $at)).compare_exchange(
                c,
                v,
                std::sync::atomic::Ordering::SeqCst,
                std::sync::atomic::Ordering::SeqCst,
            ) {
                Ok(x) | Err(x) => x,
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cass(p: *mut $t, c: *mut $t, v: $t, mo: c_int, mo2: c_int) -> c_int {
            let want = *c;
            let got = $casv(p, want, v, mo, mo2);
            if got == want {
                1
            } else {
                *c = got;
                0
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $casw(p: *mut $t, c: *mut $t, v: $t, mo: c_int, mo2: c_int) -> c_int {
            $cass(p, c, v, mo, mo2)
        }
    };
}

use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8};
atomics!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add,
    __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand,
    __tsan_atomic8_compare_exchange_val, __tsan_atomic8_compare_exchange_strong, __tsan_atomic8_compare_exchange_weak);
atomics!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add,
    __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand,
    __tsan_atomic16_compare_exchange_val, __tsan_atomic16_compare_exchange_strong, __tsan_atomic16_compare_exchange_weak);
atomics!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add,
    __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand,
    __tsan_atomic32_compare_exchange_val, __tsan_atomic32_compare_exchange_strong, __tsan_atomic32_compare_exchange_weak);
atomics!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add,
    __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand,
    __tsan_atomic64_compare_exchange_val, __tsan_atomic64_compare_exchange_strong, __tsan_atomic64_compare_exchange_weak);

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(mo: c_int) {
    atomic_point(0, mo, false);
    std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_mo: c_int) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_entry(_: *mut c_void) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_exit() {}
