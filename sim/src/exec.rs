//! Executes a scenario against the real library and records the history.

use std::rc::Rc;
use std::time::Duration;

use pollwrap::{Event, Events, PollMode, Poller};

use crate::kernel::*;
use crate::oracle::{self, Viol};
use crate::scenario::*;
use crate::sim::{self, fail, s, yield_point, Blk, St, NO_OP};

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Ok(usize),
    Err(std::io::ErrorKind, Option<i32>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum OpK {
    New,
    Drop,
    Add { key: usize, int: u8, mode: u8 },
    Mod { key: usize, int: u8, mode: u8 },
    Del,
    Wait { to: Option<Duration>, cap: usize },
    Notify,
}

impl OpK {
    pub fn code(&self) -> u8 {
        match self {
            OpK::New => 1,
            OpK::Drop => 2,
            OpK::Add { .. } => 3,
            OpK::Mod { .. } => 4,
            OpK::Del => 5,
            OpK::Wait { .. } => 6,
            OpK::Notify => 7,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub key: usize,
    /// What tells registrations apart: the key and, on kqueue, which of the two readinesses.
    pub xk: u128,
    pub r: bool,
    pub w: bool,
    pub pri: bool,
    pub hup: bool,
    pub err: Option<bool>,
}

pub const PENDING: u64 = u64::MAX;

#[derive(Clone, Debug)]
pub struct Op {
    pub tid: usize,
    pub kind: OpK,
    pub p: usize,
    pub s: usize,
    pub inc: usize,
    pub call: u64,
    pub t_call: u64,
    pub ret: u64,
    pub t_ret: u64,
    pub res: Option<R>,
    pub evs: Vec<Ev>,
    pub raw_cap: usize,
    /// Time spent asleep in the kernel with no reason to wake.
    pub sleep: u64,
    pub first_block: u64,
    pub blocks: u32,
    pub kwaits: u32,
    /// Looks at what may have changed that nothing asked for: yields, sleeps, and locks given up for a time.
    pub naps: u32,
    pub intr: u32,
    /// Data of the library's own pipe was not there yet.
    pub late: u32,
    pub fault: i32,
    pub new_failed: Option<(&'static str, i32)>,
    pub files_before: u64,
    /// Inside a kernel wait right now.
    pub in_kernel: bool,
    /// Certainly turned away because another wait was running.
    pub loser: bool,
}

impl Op {
    pub fn ok(&self) -> bool {
        matches!(self.res, Some(R::Ok(_)))
    }
    pub fn is_wait(&self) -> bool {
        matches!(self.kind, OpK::Wait { .. })
    }
    pub fn text(&self) -> String {
        let k = match &self.kind {
            OpK::New => "new".to_string(),
            OpK::Drop => "drop".into(),
            OpK::Add { key, int, mode } => {
                Act::Add { p: self.p, s: self.s, key: *key, int: *int, mode: *mode }.text()
            }
            OpK::Mod { key, int, mode } => {
                Act::Mod { p: self.p, s: self.s, key: *key, int: *int, mode: *mode }.text()
            }
            OpK::Del => format!("del p{} s{}", self.p, self.s),
            OpK::Wait { to, cap } => {
                format!("{} cap={}", Act::Wait { p: self.p, to: *to }.text(), cap)
            }
            OpK::Notify => format!("notify p{}", self.p),
        };
        let r = match &self.res {
            None => "pending".to_string(),
            Some(R::Ok(n)) => format!("Ok({})", n),
            Some(R::Err(k, e)) => format!("Err({:?}{})", k, e.map_or(String::new(), |e| format!(", os {}", e))),
        };
        let mut o = format!(
            "[{}..{}] t{} {} (p{}) -> {}",
            self.call,
            if self.ret == PENDING { "-".into() } else { self.ret.to_string() },
            self.tid,
            k,
            self.p,
            r
        );
        for e in &self.evs {
            o += &format!(
                " {{key {} {}{}{}{}{}}}",
                e.key,
                if e.r { "r" } else { "" },
                if e.w { "w" } else { "" },
                if e.pri { "p" } else { "" },
                if e.hup { "h" } else { "" },
                if e.err == Some(true) { "e" } else { "" }
            );
        }
        if self.blocks > 0 {
            o += &format!(" (slept {} ns in {} sleeps)", self.sleep, self.blocks);
        }
        o
    }
}

#[derive(Clone, Debug)]
pub struct Inc {
    pub fd: i32,
    pub file: FileId,
    /// (seq, mask from then on)
    pub line: Vec<(u64, u32)>,
    pub acts: Vec<u64>,
    /// (seq, bits that became set)
    pub rises: Vec<(u64, u32)>,
    pub closed: u64,
}

pub struct Src {
    pub kind: SrcKind,
    pub incs: Vec<Inc>,
}

#[derive(Default)]
pub struct Hist {
    pub ops: Vec<Op>,
    pub srcs: Vec<Src>,
    /// (poller, first op, last op + 1): repeated zero-timeout waits that must drain everything ready.
    pub drains: Vec<(usize, usize, usize)>,
    /// Per poller: waits, notifications; per poller and source: add, modify and delete calls.
    pub waits: Vec<Vec<usize>>,
    pub notifies: Vec<Vec<usize>>,
    pub chg: Vec<Vec<Vec<usize>>>,
}

impl Hist {
    fn index(&mut self, i: usize) {
        let (p, x) = (self.ops[i].p, self.ops[i].s);
        while self.waits.len() <= p {
            self.waits.push(Vec::new());
            self.notifies.push(Vec::new());
            self.chg.push(Vec::new());
        }
        match self.ops[i].kind {
            OpK::Wait { .. } => self.waits[p].push(i),
            OpK::Notify => self.notifies[p].push(i),
            OpK::Add { .. } | OpK::Mod { .. } | OpK::Del => {
                while self.chg[p].len() <= x {
                    self.chg[p].push(Vec::new());
                }
                self.chg[p][x].push(i);
            }
            _ => {}
        }
    }
}

pub struct PollerRt {
    pub h: Option<Rc<Poller>>,
    pub level: bool,
    pub edge: bool,
    pub raw: Option<i32>,
}

#[derive(Clone, Debug)]
pub struct Creating {
    pub n: u32,
    pub fail_at: Option<u32>,
    pub errno_sel: u8,
    pub failed: Option<(&'static str, i32)>,
}

pub struct World {
    pub sc: Scenario,
    pub pollers: Vec<PollerRt>,
    pub hist: Hist,
    pub creating: Vec<Option<Creating>>,
    pub jan: usize,
    pub phase: &'static str,
    /// Early empty returns: (op, poller, notifications that may explain it from, to).
    pub early: Vec<(usize, usize, u64, u64)>,
    /// Per thread: the event last delivered to it.
    pub last_event: Vec<Option<Event>>,
}

impl World {
    pub fn new(sc: Scenario) -> World {
        World { sc, pollers: Vec::new(), hist: Hist::default(), creating: vec![None; 16], jan: 0, phase: "setup", early: Vec::new(), last_event: vec![None; 16] }
    }
}

// ---------------------------------------------------------------- notes from the simulated kernel

fn cur_op() -> Option<&'static mut Op> {
    let s = s();
    let o = s.threads[s.cur].cur_op;
    if o == NO_OP {
        None
    } else {
        s.w.hist.ops.get_mut(o)
    }
}

pub fn op_errno(e: i32) {
    if let Some(o) = cur_op() {
        o.fault = e;
    }
}
pub fn op_intr() {
    if let Some(o) = cur_op() {
        o.intr += 1;
    }
}
pub fn op_late() {
    if let Some(o) = cur_op() {
        o.late += 1;
    }
}
pub fn op_block() {
    let q = s().next_seq();
    if let Some(o) = cur_op() {
        o.blocks += 1;
        if o.first_block == PENDING {
            o.first_block = q;
        }
    }
}
pub fn op_nap() {
    if let Some(o) = cur_op() {
        o.naps += 1;
    }
}
pub fn kernel_wait(inside: bool) {
    if let Some(o) = cur_op() {
        if inside {
            o.kwaits += 1;
        }
        o.in_kernel = inside;
    }
}

pub fn describe_threads() -> String {
    let s = s();
    let mut o = String::new();
    for (i, t) in s.threads.iter().enumerate() {
        let st = match &t.st {
            St::Done => continue,
            St::Blocked(Blk::Futex(_)) => "blocked on a lock".to_string(),
            St::Blocked(Blk::Epoll(_)) => "blocked in epoll_wait".into(),
            St::Blocked(Blk::Poll(_)) => "blocked in poll".into(),
            St::Blocked(Blk::PipeW(_)) => "blocked writing a pipe".into(),
            St::Blocked(Blk::PipeR(_)) => "blocked reading a pipe".into(),
            St::Blocked(Blk::EventFd(_)) => "blocked reading an eventfd".into(),
            St::Blocked(Blk::Sleep) => "asleep".into(),
            x => format!("{:?}", x),
        };
        let op = if t.cur_op == NO_OP { "between calls".to_string() } else { format!("in {}", s.w.hist.ops[t.cur_op].text()) };
        o += &format!("t{} {} {}; ", i, st, op);
    }
    o
}

// ---------------------------------------------------------------- operations

fn lib<T>(f: impl FnOnce() -> T) -> T {
    let c = s().cur;
    s().threads[c].in_lib = true;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    s().threads[c].in_lib = false;
    match r {
        Ok(v) => v,
        Err(e) => {
            let m = if let Some(x) = e.downcast_ref::<String>() {
                x.clone()
            } else if let Some(x) = e.downcast_ref::<&str>() {
                x.to_string()
            } else {
                "?".into()
            };
            fail(Viol::new("panic", format!("the library panicked: {}; {}", m, describe_threads())))
        }
    }
}

fn begin(kind: OpK, p: usize, src: usize) -> usize {
    let q = s().next_seq();
    let s = s();
    let inc = s.w.hist.srcs.get(src).map_or(0, |x| x.incs.len().saturating_sub(1));
    s.w.hist.ops.push(Op {
        tid: s.cur,
        kind,
        p,
        s: src,
        inc,
        call: q,
        t_call: s.now,
        ret: PENDING,
        t_ret: 0,
        res: None,
        evs: vec![],
        raw_cap: 0,
        sleep: 0,
        first_block: PENDING,
        blocks: 0,
        kwaits: 0,
        naps: 0,
        intr: 0,
        late: 0,
        fault: 0,
        new_failed: None,
        files_before: 0,
        in_kernel: false,
        loser: false,
    });
    let i = s.w.hist.ops.len() - 1;
    s.w.hist.index(i);
    let c = s.cur;
    s.threads[c].cur_op = i;
    s.logf(|| format!("CALL {}", s_text(i)));
    s.stats.add("calls", 1);
    i
}

fn s_text(i: usize) -> String {
    s().w.hist.ops[i].text()
}

fn end(i: usize, r: R) {
    let q = s().next_seq();
    let s = s();
    let c = s.cur;
    s.threads[c].cur_op = NO_OP;
    let now = s.now;
    let o = &mut s.w.hist.ops[i];
    o.ret = q;
    o.t_ret = now;
    o.res = Some(r);
    s.ihash = crate::rng::mix(s.ihash ^ hash_op(&s.w.hist.ops[i]));
    s.logf(|| format!("RET  {}", s_text(i)));
    let v = oracle::on_return(i);
    probes(i);
    if let Some(v) = v {
        fail(v);
    }
}

fn hash_op(o: &Op) -> u64 {
    let mut h = o.tid as u64 ^ (o.evs.len() as u64) << 8 ^ (o.blocks as u64) << 16 ^ (o.intr as u64) << 24;
    h ^= match &o.res {
        Some(R::Ok(n)) => (*n as u64) << 32,
        Some(R::Err(k, _)) => (1 << 60) | (*k as u64) << 40,
        None => 0,
    };
    for e in &o.evs {
        h = crate::rng::mix(h ^ e.key as u64 ^ ((e.r as u64) << 1 | (e.w as u64) << 2 | (e.hup as u64) << 3) << 58);
    }
    h
}

/// Counts how often rare situations were reached.
fn probes(i: usize) {
    let s = s();
    let h = &s.w.hist;
    let o = &h.ops[i];
    let mut hit: Vec<&'static str> = Vec::new();
    match &o.kind {
        OpK::Wait { to, .. } => {
            if o.blocks > 0 {
                hit.push("reach_wait_slept");
            }
            if o.intr > 0 {
                hit.push("reach_wait_interrupted");
            }
            if o.intr > 1 {
                hit.push("reach_wait_interrupted_repeatedly");
            }
            if oracle::definite_loser(h, i) {
                hit.push("reach_wait_lost_to_other_wait");
            }
            if matches!(o.res, Some(R::Err(..))) {
                hit.push("reach_wait_failed");
            }
            if o.evs.len() > 1 {
                hit.push("reach_wait_several_events");
            }
            if o.evs.is_empty() && o.ok() {
                let el = o.t_ret - o.t_call;
                match to {
                    Some(t) if (el as u128) < t.as_nanos() => hit.push("reach_wait_empty_early"),
                    None => hit.push("reach_wait_empty_early"),
                    Some(t) if !t.is_zero() => hit.push("reach_wait_timed_out"),
                    _ => {}
                }
                if to.map_or(false, |t| t.as_secs() > 25 * 86400) && el > 24 * 86400 * 1_000_000_000 {
                    hit.push("reach_wait_longer_than_i32_ms");
                }
            }
            if o.evs.iter().any(|e| e.hup) {
                hit.push("reach_event_hup");
            }
            if o.evs.iter().any(|e| e.err == Some(true)) {
                hit.push("reach_event_err");
            }
            if o.evs.iter().any(|e| e.pri) {
                hit.push("reach_event_pri");
            }
        }
        OpK::Add { .. } | OpK::Mod { .. } | OpK::Del => {
            if h.ops.iter().any(|w| w.is_wait() && w.p == o.p && w.first_block < o.call && w.ret > o.call) {
                hit.push("reach_change_while_wait_blocked");
            }
            if h.ops.iter().enumerate().any(|(j, w)| {
                j != i && !w.is_wait() && w.p == o.p && w.call < o.ret && w.ret > o.call && !matches!(w.kind, OpK::Notify)
            }) {
                hit.push("reach_concurrent_changes");
            }
            if !o.ok() {
                hit.push("reach_change_failed");
            }
        }
        OpK::Notify => {
            if h.ops.iter().any(|w| w.is_wait() && w.p == o.p && w.first_block < o.call && w.ret > o.call) {
                hit.push("reach_notify_while_wait_blocked");
            } else if !h.ops.iter().any(|w| w.is_wait() && w.p == o.p && w.ret > o.call) {
                hit.push("reach_notify_without_wait");
            }
            if h.ops.iter().enumerate().any(|(j, n)| {
                j != i && n.kind == OpK::Notify && n.p == o.p && n.call < o.ret && n.ret > o.call
            }) {
                hit.push("reach_concurrent_notifies");
            }
        }
        _ => {}
    }
    for x in hit {
        s.stats.add(x, 1);
    }
}

fn res_of<T>(r: &std::io::Result<T>, n: usize) -> R {
    match r {
        Ok(_) => R::Ok(n),
        Err(e) => R::Err(e.kind(), e.raw_os_error()),
    }
}

pub fn new_poller(p: usize, fail_new: Option<(u32, u8)>) -> bool {
    yield_point();
    while s().w.pollers.len() <= p {
        s().w.pollers.push(PollerRt { h: None, level: true, edge: true, raw: None });
    }
    let i = begin(OpK::New, p, usize::MAX);
    let c = s().cur;
    s().w.creating[c] =
        Some(Creating { n: 0, fail_at: fail_new.map(|x| x.0), errno_sel: fail_new.map_or(0, |x| x.1), failed: None });
    s().w.hist.ops[i].files_before = s().k.created;
    let r = lib(pollwrap::new);
    let cr = s().w.creating[c].take().unwrap();
    s().w.hist.ops[i].new_failed = cr.failed;
    let ok = r.is_ok();
    let res = res_of(&r, 0);
    if let Ok(h) = r {
        let (level, edge) = lib(|| pollwrap::supports(&h));
        let raw = pollwrap::raw_fd(&h);
        s().w.pollers[p] = PollerRt { h: Some(Rc::new(h)), level, edge, raw };
    }
    end(i, res);
    if let Some(v) = oracle::after_new(i) {
        fail(v);
    }
    ok
}

fn handle(p: usize) -> Option<Rc<Poller>> {
    s().w.pollers.get(p).and_then(|x| x.h.clone())
}

fn drop_poller(p: usize) {
    yield_point();
    let h = match s().w.pollers[p].h.take() {
        Some(h) => h,
        None => return,
    };
    match Rc::try_unwrap(h) {
        Ok(h) => {
            let i = begin(OpK::Drop, p, usize::MAX);
            lib(|| pollwrap::drop_poller(h));
            end(i, R::Ok(0));
        }
        Err(h) => {
            // In use by another thread: not now.
            s().w.pollers[p].h = Some(h);
        }
    }
}

fn event(key: usize, int: u8) -> Event {
    if int & I_REUSE != 0 {
        // An event is a plain value: one that was delivered may be changed and passed on as an interest.
        let sim = s();
        if let Some(mut e) = sim.w.last_event.get(sim.cur).copied().flatten() {
            e.key = key;
            e.readable = int & I_R != 0;
            e.writable = int & I_W != 0;
            e.set_priority(int & I_PRI != 0);
            e.set_interrupt(int & I_HUP != 0);
            return e;
        }
    }
    let mut e = match int & (I_R | I_W) {
        0 => Event::none(key),
        I_R => Event::readable(key),
        I_W => Event::writable(key),
        _ => Event::all(key),
    };
    if int & I_PRI != 0 {
        e = e.with_priority();
    }
    if int & I_HUP != 0 {
        e = e.with_interrupt();
    }
    e
}

fn mode(m: u8) -> PollMode {
    match m {
        ONESHOT => PollMode::Oneshot,
        LEVEL => PollMode::Level,
        EDGE => PollMode::Edge,
        _ => PollMode::EdgeOneshot,
    }
}

/// The descriptor a source currently has; `None` if it has none (a nested poller that is gone).
fn src_fd(x: usize) -> Option<i32> {
    s().w.hist.srcs[x].incs.last().map(|i| i.fd)
}

fn skip_source(p: usize, x: usize) -> bool {
    let s = s();
    match s.w.sc.srcs[x].kind {
        SrcKind::Nested(q) => p >= q || s.w.pollers.get(q).map_or(true, |y| y.h.is_none()),
        _ => false,
    }
}

pub fn do_add(p: usize, x: usize, key: usize, int: u8, m: u8) -> Option<R> {
    yield_point();
    if skip_source(p, x) {
        return None;
    }
    let (h, fd) = (handle(p)?, src_fd(x)?);
    let int = kq_int(x, int, true);
    let _hold = nested_hold(x);
    let i = begin(OpK::Add { key, int, mode: m }, p, x);
    let r = lib(|| {
        if let Some(r) = filter_call(&h, x, 0, key, m) {
            r
        } else if int & I_DEFAULT_API != 0 {
            pollwrap::add_default(&h, fd, event(key, int))
        } else {
            pollwrap::add(&h, fd, event(key, int), mode(m))
        }
    });
    let r = res_of(&r, 0);
    drop(h);
    end(i, r.clone());
    Some(r)
}

/// What the caller asks of a source: an inner kqueue cannot be written to (adding it like this fails, and a modification
/// is made in part), filters have no interest.
fn kq_int(x: usize, int: u8, add: bool) -> u8 {
    if !oracle::KQ {
        return int;
    }
    match s().w.sc.srcs[x].kind {
        SrcKind::Nested(_) if !add => int & !I_W,
        k if k.filter() => I_R,
        _ => int,
    }
}

/// The call for a kqueue filter (0 add, 1 modify, 2 delete), if the source is one.
fn filter_call(h: &Poller, x: usize, op: u8, key: usize, m: u8) -> Option<std::io::Result<()>> {
    let d = &s().w.sc.srcs[x];
    let (kind, arg, to) = match d.kind {
        SrcKind::Sig(n) => (0, n, Duration::ZERO),
        SrcKind::Proc(n) => (1 + d.init as u8, n, Duration::ZERO),
        SrcKind::Timer(ms) => (4, 1 << 40 | x, timer_timeout(ms, key)),
        _ => return None,
    };
    Some(pollwrap::filter(h, op, kind, arg, to, key, mode(m)))
}

fn nested_hold(x: usize) -> Option<Rc<Poller>> {
    match s().w.sc.srcs[x].kind {
        SrcKind::Nested(q) => handle(q),
        _ => None,
    }
}

pub fn do_mod(p: usize, x: usize, key: usize, int: u8, m: u8) -> Option<R> {
    yield_point();
    if skip_source(p, x) {
        return None;
    }
    let (h, fd) = (handle(p)?, src_fd(x)?);
    let int = kq_int(x, int, false);
    let _hold = nested_hold(x);
    let i = begin(OpK::Mod { key, int, mode: m }, p, x);
    let r = lib(|| {
        if let Some(r) = filter_call(&h, x, 1, key, m) {
            r
        } else if int & I_DEFAULT_API != 0 {
            pollwrap::modify_default(&h, fd, event(key, int))
        } else {
            pollwrap::modify(&h, fd, event(key, int), mode(m))
        }
    });
    let r = res_of(&r, 0);
    drop(h);
    end(i, r.clone());
    Some(r)
}

pub fn do_del(p: usize, x: usize) -> Option<R> {
    yield_point();
    if skip_source(p, x) {
        return None;
    }
    let (h, fd) = (handle(p)?, src_fd(x)?);
    let _hold = nested_hold(x);
    let i = begin(OpK::Del, p, x);
    let r = lib(|| match filter_call(&h, x, 2, 0, 0) {
        Some(r) => r,
        None => pollwrap::delete(&h, fd),
    });
    let r = res_of(&r, 0);
    drop(h);
    end(i, r.clone());
    Some(r)
}

pub fn do_notify(p: usize) -> Option<R> {
    loop {
        yield_point();
        let h = handle(p)?;
        let i = begin(OpK::Notify, p, usize::MAX);
        let r = lib(|| pollwrap::notify(&h));
        let r = res_of(&r, 0);
        drop(h);
        end(i, r.clone());
        let o = &s().w.hist.ops[i];
        // Other threads of the scenario count on it.
        if o.ok() || o.fault == 0 {
            return Some(r);
        }
    }
}

pub fn do_wait(p: usize, to: Option<Duration>, evs: &mut Events) -> Option<usize> {
    yield_point();
    let h = handle(p)?;
    evs.clear();
    if !evs.is_empty() || evs.len() != 0 || evs.iter().next().is_some() {
        fail(Viol::new("events_buffer", "a cleared event buffer is not empty".into()));
    }
    let cap = evs.capacity().get();
    let i = begin(OpK::Wait { to, cap }, p, usize::MAX);
    let r = lib(|| pollwrap::wait(&h, evs, to));
    if r.is_ok() {
        if let Some(e) = evs.iter().last() {
            let sim = s();
            sim.w.last_event[sim.cur] = Some(e);
        }
    }
    let list: Vec<Ev> = match &r {
        Ok(_) => evs
            .iter()
            .map(|e| {
                if e.with_no_extra() != Event::new(e.key, e.readable, e.writable) {
                    fail(Viol::new("event_extra", format!("event {:?} without extra information differs from a fresh one", e)));
                }
                #[allow(deprecated)]
                let cf = e.is_connect_failed();
                if e.is_err() == Some(true) && e.is_interrupt() && cf != Some(true)
                    || e.is_err() == Some(false) && !e.is_interrupt() && cf != Some(false)
                    // A connection that ends without an error has not failed (poll.rs says it has; nothing is claimed there).
                    || !oracle::POLL_BACKEND && e.is_err() == Some(false) && cf == Some(true)
                {
                    fail(Viol::new("event_extra", format!("event {:?} says {:?} to a failed connection", e, cf)));
                }
                let half = oracle::event_half(e.readable, e.writable);
                Ev { key: e.key, xk: oracle::xkey(e.key, half), r: e.readable, w: e.writable, pri: e.is_priority(), hup: e.is_interrupt(), err: e.is_err() }
            })
            .collect(),
        Err(_) => Vec::new(),
    };
    if let Ok(n) = &r {
        if *n != list.len() || evs.len() != list.len() || evs.is_empty() != list.is_empty() {
            fail(Viol::new(
                "event_count",
                format!("wait returned {} but the buffer holds {} events (len {})", n, list.len(), evs.len()),
            ));
        }
    }
    let n = list.len();
    s().w.hist.ops[i].evs = list;
    let res = res_of(&r, n);
    drop(h);
    end(i, res);
    Some(n)
}

// ---------------------------------------------------------------- sources

fn open_src(x: usize) {
    let q = s().next_seq();
    let s = s();
    let def = s.w.sc.srcs[x].clone();
    let (fd, file) = match def.kind {
        SrcKind::Nested(p) => {
            // The descriptor of the inner poller, if there is one on this backend.
            match s.w.pollers.get(p).and_then(|y| y.raw) {
                Some(fd) => match s.k.ent(fd) {
                    Ok(e) => (fd, e.file),
                    Err(_) => return,
                },
                None => return,
            }
        }
        SrcKind::File => {
            let f = s.k.new_file(Kind::Regular, libc::O_RDWR, Owner::User(x));
            (s.k.alloc_fd(f, true, 0), f)
        }
        SrcKind::Sig(_) | SrcKind::Proc(_) | SrcKind::Timer(_) => {
            s.w.hist.srcs[x].incs.push(Inc { fd: -1, file: usize::MAX, line: vec![], acts: vec![], rises: vec![], closed: PENDING });
            return;
        }
        SrcKind::Sock => {
            let sk = Sock { rx: (def.init & 1) as u64, tx: def.init & 2 != 0, tcp: def.init & 4 != 0, ..Sock::default() };
            let f = s.k.new_file(Kind::Sock(sk), libc::O_RDWR, Owner::User(x));
            (s.k.alloc_fd(f, false, 0), f)
        }
    };
    let m = s.k.mask(file);
    s.w.hist.srcs[x].incs.push(Inc {
        fd,
        file,
        line: vec![(q, m)],
        acts: vec![],
        rises: vec![(q, m)],
        closed: PENDING,
    });
}

pub fn do_src(x: usize, a: SrcAct) {
    yield_point();
    if s().w.sc.srcs[x].kind.filter() {
        return filter_act(x, a);
    }
    if s().w.sc.srcs[x].kind != SrcKind::Sock || s().w.hist.srcs[x].incs.last().map_or(true, |i| i.closed != PENDING) {
        return;
    }
    let q = s().next_seq();
    let s = s();
    let file = s.w.hist.srcs[x].incs.last().unwrap().file;
    let old = s.k.mask(file);
    let Kind::Sock(k) = &mut s.k.file_mut(file).kind else { return };
    let key = match a {
        SrcAct::Feed => {
            k.rx += 1;
            IN | PRI | RDNORM | RDBAND
        }
        SrcAct::Drain => {
            k.rx = 0;
            NVAL // wakes nobody
        }
        SrcAct::Eof => {
            k.eof = true;
            0
        }
        SrcAct::Hup => {
            k.hup = true;
            k.eof = true;
            0
        }
        SrcAct::HupBare => {
            k.hup = true;
            0
        }
        SrcAct::Unhup => {
            k.hup = false;
            k.eof = false;
            NVAL
        }
        SrcAct::Err => {
            k.err = true;
            ERR
        }
        SrcAct::Unerr => {
            k.err = false;
            NVAL
        }
        SrcAct::Pri => {
            k.pri = true;
            IN | PRI | RDNORM | RDBAND
        }
        SrcAct::Unpri => {
            k.pri = false;
            NVAL
        }
        SrcAct::TxOn => {
            k.tx = true;
            OUT | WRNORM | WRBAND
        }
        SrcAct::TxOff => {
            k.tx = false;
            NVAL
        }
    };
    if key != NVAL {
        s.k.wake(file, key);
    }
    let new = s.k.mask(file);
    let inc = s.w.hist.srcs[x].incs.last_mut().unwrap();
    inc.acts.push(q);
    if new != old {
        inc.line.push((q, new));
        if new & !old != 0 {
            inc.rises.push((q, new & !old));
        }
    }
    s.stats.add("source_changes", 1);
    s.logf(|| format!("SRC  s{} {:?} mask {:#x} -> {:#x}", x, a, old, new));
}

/// A signal arrives, a process does something.
fn filter_act(x: usize, a: SrcAct) {
    use crate::kq::*;
    let q = s().next_seq();
    let s = s();
    let bits = match (s.w.sc.srcs[x].kind, a) {
        (SrcKind::Sig(n), SrcAct::Feed) => {
            s.k.kq_signal(n);
            1
        }
        (SrcKind::Proc(n), SrcAct::Feed | SrcAct::TxOn | SrcAct::Eof) if !s.k.dead.contains(&n) => {
            let what = match a {
                SrcAct::Feed => NOTE_FORK,
                SrcAct::TxOn => NOTE_EXEC,
                _ => NOTE_EXIT,
            };
            s.k.kq_proc(n, what);
            what
        }
        _ => return,
    };
    let inc = s.w.hist.srcs[x].incs.last_mut().unwrap();
    inc.acts.push(q);
    inc.rises.push((q, bits));
    s.stats.add("source_changes", 1);
    s.logf(|| format!("SRC  s{} {:#x}", x, bits));
}

fn do_reopen(x: usize) {
    // The caller's duty: delete the registration everywhere, then close.
    let np = s().w.pollers.len();
    for p in 0..np {
        do_del(p, x);
    }
    yield_point();
    let q = s().next_seq();
    let s_ = s();
    let Some(inc) = s_.w.hist.srcs[x].incs.last_mut() else { return };
    inc.closed = q;
    let fd = inc.fd;
    let _ = s_.k.close(fd);
    s_.logf(|| format!("SRC  s{} closed (descriptor {})", x, fd));
    s_.stats.add("source_reopened", 1);
    yield_point();
    open_src(x);
    let s_ = s();
    let fd = s_.w.hist.srcs[x].incs.last().unwrap().fd;
    s_.logf(|| format!("SRC  s{} opened (descriptor {})", x, fd));
}

// ---------------------------------------------------------------- threads

fn perform(a: &Act, evs: &mut Events) {
    match a {
        Act::Add { p, s, key, int, mode } => {
            do_add(*p, *s, *key, *int, *mode);
        }
        Act::Mod { p, s, key, int, mode } => {
            do_mod(*p, *s, *key, *int, *mode);
        }
        Act::Del { p, s } => {
            do_del(*p, *s);
        }
        Act::Wait { p, to } => {
            do_wait(*p, *to, evs);
        }
        Act::Notify { p } => {
            do_notify(*p);
        }
        Act::Src { s, a } => do_src(*s, *a),
        Act::Reopen { s } => do_reopen(*s),
        Act::Sleep(n) => {
            yield_point();
            sim::sleep(*n)
        }
        Act::Drop { p } => drop_poller(*p),
        Act::Temp { fail } => {
            let p = s().w.pollers.len();
            s().w.pollers.push(PollerRt { h: None, level: true, edge: true, raw: None });
            if new_poller(p, *fail) || new_poller(p, None) {
                do_notify(p);
                do_wait(p, None, evs);
                do_wait(p, Some(Duration::from_micros(1500)), evs);
                drop_poller(p);
            }
        }
    }
}

pub fn build(sc: &Scenario) {
    // Threads 0..n are the scenario's; the last one is the janitor, which sets up and cleans up.
    let s_ = s();
    for (i, (cap, acts)) in sc.threads.iter().enumerate() {
        let (cap, acts) = (*cap, acts.clone());
        let t = s_.spawn(
            false,
            Box::new(move || {
                let mut evs = pollwrap::events(cap);
                check_cap(&evs, cap);
                for a in &acts {
                    perform(a, &mut evs);
                }
            }),
        );
        debug_assert_eq!(t, i);
    }
    let j = s_.spawn(true, Box::new(janitor));
    s_.w.jan = j;
}

fn check_cap(e: &Events, cap: usize) {
    let c = e.capacity().get();
    if c < cap.max(1) || (cap == 0 && c < 2) {
        fail(Viol::new("events_buffer", format!("buffer created for {} events has capacity {}", cap, c)));
    }
}

fn janitor() {
    let sc = s().w.sc.clone();
    let mut evs = pollwrap::events(sc.jan_cap);
    check_cap(&evs, sc.jan_cap);
    // Some holes below, so that descriptor numbers differ from creation order.
    for p in 0..sc.pollers {
        let f = sc.fail_new.and_then(|(q, n, e)| if q == p { Some((n, e)) } else { None });
        if !new_poller(p, f) && !new_poller(p, None) {
            fail(Viol::new("creation_failed", format!("creating poller p{} failed although nothing irreplaceable is missing", p)));
        }
    }
    for k in &sc.srcs {
        s().w.hist.srcs.push(Src { kind: k.kind, incs: vec![] });
    }
    for x in 0..sc.srcs.len() {
        open_src(x);
    }
    for a in &sc.init {
        perform(a, &mut evs);
    }
    s().w.phase = "run";
    let me = s().cur;
    for t in 0..s().threads.len() {
        if t != me {
            s().threads[t].st = St::Ready;
        }
    }
    // Wait for the scenario's threads; wake those that wait for ever, as a user would.
    let mut rounds = 0;
    loop {
        sim::quiesce();
        let busy: Vec<usize> =
            (0..s().threads.len()).filter(|&t| t != me && !matches!(s().threads[t].st, St::Done)).collect();
        if busy.is_empty() {
            break;
        }
        rounds += 1;
        if rounds > 400 {
            fail(Viol::new("deadlock", format!("threads do not finish; {}", describe_threads())));
        }
        let mut ps: Vec<usize> = Vec::new();
        for &t in &busy {
            let o = s().threads[t].cur_op;
            if o != NO_OP && s().w.hist.ops[o].is_wait() && !ps.contains(&s().w.hist.ops[o].p) {
                ps.push(s().w.hist.ops[o].p);
            }
        }
        for p in ps {
            do_notify(p);
        }
    }
    s().w.phase = "drain";
    drain(&sc, &mut evs);
    for p in 0..s().w.pollers.len() {
        drop_poller(p);
    }
    if let Some(v) = oracle::at_end() {
        fail(v);
    }
}

fn settle(p: usize, n: usize, evs: &mut Events) {
    let from = s().w.hist.ops.len();
    for _ in 0..n {
        do_wait(p, Some(Duration::ZERO), evs);
    }
    let to = s().w.hist.ops.len();
    s().w.hist.drains.push((p, from, to));
}

fn drain(sc: &Scenario, evs: &mut Events) {
    let np = s().w.pollers.len();
    let ns = sc.srcs.len();
    let cap = evs.capacity().get();
    let n = 4 + 2 * (ns + cap - 1) / cap;
    // Outer pollers (lower numbers) may watch inner ones.
    for p in 0..np {
        settle(p, n, evs);
    }
    let base = 1usize << 40;
    if sc.drain >= 2 {
        for round in 0..2usize {
            for p in 0..np {
                for x in 0..ns {
                    let key = base + round * 1000 + p * 100 + x;
                    let (int, m) = if round == 0 { (I_R | I_W, ONESHOT) } else { (I_R, LEVEL) };
                    if let Some(R::Err(std::io::ErrorKind::NotFound, _)) = do_mod(p, x, key, int, m) {
                        do_add(p, x, key, int, m);
                    }
                }
            }
            for x in 0..ns {
                do_src(x, SrcAct::Feed);
                do_src(x, SrcAct::TxOn);
            }
            for p in 0..np {
                settle(p, n, evs);
            }
            for x in 0..ns {
                if round == 1 || x % 2 == 0 {
                    do_src(x, SrcAct::Drain);
                    do_src(x, SrcAct::Unpri);
                    do_src(x, SrcAct::Unhup);
                    do_src(x, SrcAct::Unerr);
                }
                if round == 0 {
                    do_src(x, SrcAct::Feed);
                }
            }
            for p in 0..np {
                settle(p, n, evs);
            }
        }
    }
    if sc.drain >= 1 {
        // Silence everything that would be reported again, then probe notification and timeout.
        for p in 0..np {
            for x in 0..ns {
                if sc.srcs[x].kind.filter() {
                    do_del(p, x);
                    continue;
                }
                do_mod(p, x, base + 5000 + p * 100 + x, 0, ONESHOT);
            }
        }
        for x in 0..ns {
            do_src(x, SrcAct::Unhup);
            do_src(x, SrcAct::Unerr);
        }
        for p in 0..np {
            settle(p, n, evs);
        }
        for p in 0..np {
            if s().w.pollers[p].h.is_none() {
                continue;
            }
            do_notify(p);
            do_wait(p, None, evs);
            do_wait(p, Some(Duration::ZERO), evs);
            // Last, so that what an expired timeout leaves behind is seen.
            do_wait(p, Some(Duration::from_nanos(2_500_000)), evs);
        }
        if let Some(v) = oracle::settled() {
            fail(v);
        }
    }
    // Delete everything; nothing may be reported afterwards.
    for x in 0..ns {
        for p in 0..np {
            do_del(p, x);
        }
    }
    for x in 0..ns {
        do_src(x, SrcAct::Feed);
        do_src(x, SrcAct::TxOn);
        do_src(x, SrcAct::Hup);
    }
    for p in 0..np {
        settle(p, 3, evs);
    }
}
