//! Executes a scenario against the real library and records the history.

use std::rc::Rc;
use std::time::Duration;

use pollwrap::{Event, Events, PollMode, Poller};

use crate::kernel::*;
use crate::oracle::{self, Viol};
use crate::scenario::*;
use crate::sim::{self, fail, s, yield_point, Blk, St, NO_OP};

#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Ok(usize),
    Err(std::io::ErrorKind, Option<i32>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum OpK {
    New,
    Drop,
    Add { key: usize, int: u8, mode: u8 },
    Mod { key: usize, int: u8, mode: u8 },
    Del,
    Wait { to: Option<Duration>, cap: usize },
    Notify,
    Post { key: usize, int: u8 },
}

impl OpK {
    pub fn code(&self) -> u8 {
        match self {
            OpK::New => 1,
            OpK::Drop => 2,
            OpK::Add { .. } => 3,
            OpK::Mod { .. } => 4,
            OpK::Del => 5,
            OpK::Wait { .. } => 6,
            OpK::Notify => 7,
            OpK::Post { .. } => 8,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ev {
    pub key: usize,
    pub r: bool,
    pub w: bool,
    pub pri: bool,
    pub hup: bool,
    pub err: bool,
}

pub const PENDING: u64 = u64::MAX;

#[derive(Clone, Debug)]
pub struct Op {
    pub tid: usize,
    pub kind: OpK,
    pub p: usize,
    pub s: usize,
    /// Which socket or event of the source: it can be closed and opened again.
    pub inc: usize,
    pub call: u64,
    pub t_call: u64,
    pub ret: u64,
    pub t_ret: u64,
    pub res: Option<R>,
    pub evs: Vec<Ev>,
    /// Time spent asleep in the kernel with no reason to wake.
    pub sleep: u64,
    pub blocks: u32,
    pub kwaits: u32,
    /// When it last left nothing in the port's queue.
    pub emptied: u64,
    /// A system call made by this call failed.
    pub fault: bool,
    pub in_kernel: bool,
}

impl Op {
    pub fn ok(&self) -> bool {
        matches!(self.res, Some(R::Ok(_)))
    }
    pub fn is_wait(&self) -> bool {
        matches!(self.kind, OpK::Wait { .. })
    }
    pub fn text(&self) -> String {
        let k = match &self.kind {
            OpK::New => "new".to_string(),
            OpK::Drop => "drop".into(),
            OpK::Add { key, int, mode } => Act::Add { p: self.p, s: self.s, key: *key, int: *int, mode: *mode }.text(),
            OpK::Mod { key, int, mode } => Act::Mod { p: self.p, s: self.s, key: *key, int: *int, mode: *mode }.text(),
            OpK::Del => format!("del {} {}", self.p, self.s),
            OpK::Wait { to, cap } => format!("{} cap={}", Act::Wait { p: self.p, to: *to }.text(), cap),
            OpK::Notify => "notify".into(),
            OpK::Post { key, int } => format!("post key {} int {}", key, int),
        };
        let r = match &self.res {
            None => "pending".to_string(),
            Some(R::Ok(n)) => format!("Ok({})", n),
            Some(R::Err(k, e)) => format!("Err({:?}{})", k, e.map_or(String::new(), |e| format!(", os {}", e))),
        };
        let mut o = format!(
            "[{}..{}] t{} {} (p{}) -> {}",
            self.call,
            if self.ret == PENDING { "-".into() } else { self.ret.to_string() },
            self.tid,
            k,
            self.p,
            r
        );
        for e in &self.evs {
            o += &format!(" {}", ev_text(e));
        }
        if self.blocks > 0 {
            o += &format!(" (slept {} ns in {} sleeps)", self.sleep, self.blocks);
        }
        o
    }
}

pub fn ev_text(e: &Ev) -> String {
    let f = |b: bool, c: &'static str| if b { c } else { "" };
    format!("{{key {} {}{}{}{}{}}}", e.key, f(e.r, "r"), f(e.w, "w"), f(e.pri, "p"), f(e.hup, "h"), f(e.err, "e"))
}

#[derive(Clone, Debug)]
pub struct Inc {
    pub handle: usize,
    /// (seq, conditions from then on); bit 0 of an event: signaled
    pub line: Vec<(u64, u32)>,
    /// When an event was signaled.
    pub signals: Vec<u64>,
    pub closed: u64,
}

pub struct Src {
    pub kind: Kind,
    pub incs: Vec<Inc>,
    /// Being closed and opened again: nobody may use it.
    pub closing: bool,
    pub users: u32,
}

#[derive(Default)]
pub struct Hist {
    pub ops: Vec<Op>,
    pub srcs: Vec<Src>,
    /// (poller, first op, last op + 1): repeated zero-timeout waits that must drain everything ready.
    pub drains: Vec<(usize, usize, usize)>,
    /// Per poller: waits, notifications, posts; per poller and source: add, modify and delete calls.
    pub waits: Vec<Vec<usize>>,
    pub notifies: Vec<Vec<usize>>,
    pub posts: Vec<Vec<usize>>,
    pub chg: Vec<Vec<Vec<usize>>>,
}

impl Hist {
    fn index(&mut self, i: usize) {
        let (p, x) = (self.ops[i].p, self.ops[i].s);
        while self.waits.len() <= p {
            self.waits.push(Vec::new());
            self.notifies.push(Vec::new());
            self.posts.push(Vec::new());
            self.chg.push(Vec::new());
        }
        match self.ops[i].kind {
            OpK::Wait { .. } => self.waits[p].push(i),
            OpK::Notify => self.notifies[p].push(i),
            OpK::Post { .. } => self.posts[p].push(i),
            OpK::Add { .. } | OpK::Mod { .. } | OpK::Del => {
                while self.chg[p].len() <= x {
                    self.chg[p].push(Vec::new());
                }
                self.chg[p][x].push(i);
            }
            _ => {}
        }
    }
}

pub struct Creating {
    pub n: u32,
    pub fail_at: Option<u32>,
    pub failed: bool,
}

pub struct World {
    pub sc: Scenario,
    pub pollers: Vec<Option<Rc<Poller>>>,
    pub hist: Hist,
    pub creating: Vec<Option<Creating>>,
    pub last_event: Vec<Option<Event>>,
}

impl World {
    pub fn new(sc: Scenario) -> World {
        World {
            sc,
            pollers: Vec::new(),
            hist: Hist::default(),
            creating: (0..16).map(|_| None).collect(),
            last_event: vec![None; 16],
        }
    }
}

// ---------------------------------------------------------------- notes from the simulated kernel

fn cur_op() -> Option<&'static mut Op> {
    let s = s();
    let o = s.threads[s.cur].cur_op;
    if o == NO_OP {
        None
    } else {
        s.w.hist.ops.get_mut(o)
    }
}
pub fn op_fault() {
    if let Some(o) = cur_op() {
        o.fault = true;
    }
}
pub fn op_block() {
    s().next_seq();
    if let Some(o) = cur_op() {
        o.blocks += 1;
    }
}
pub fn op_emptied() {
    let q = s().next_seq();
    if let Some(o) = cur_op() {
        o.emptied = q;
    }
}
pub fn kernel_wait(inside: bool) {
    if let Some(o) = cur_op() {
        if inside {
            o.kwaits += 1;
        }
        o.in_kernel = inside;
    }
}

pub fn describe_threads() -> String {
    let s = s();
    let mut o = String::new();
    for (i, t) in s.threads.iter().enumerate() {
        let st = match &t.st {
            St::Done => continue,
            St::Blocked(Blk::Pool) => continue,
            St::Blocked(Blk::Futex(_)) => "blocked on a lock".to_string(),
            St::Blocked(Blk::Port(_)) => "blocked in GetQueuedCompletionStatusEx".into(),
            St::Blocked(Blk::Sleep) => "asleep".into(),
            x => format!("{:?}", x),
        };
        let op = if t.cur_op == NO_OP { "between calls".to_string() } else { format!("in {}", s.w.hist.ops[t.cur_op].text()) };
        o += &format!("t{} {} {}; ", i, st, op);
    }
    o
}

// ---------------------------------------------------------------- operations

fn lib<T>(f: impl FnOnce() -> T) -> T {
    let c = s().cur;
    s().threads[c].in_lib = true;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    s().threads[c].in_lib = false;
    match r {
        Ok(v) => v,
        Err(e) => {
            let m = if let Some(x) = e.downcast_ref::<String>() {
                x.clone()
            } else if let Some(x) = e.downcast_ref::<&str>() {
                x.to_string()
            } else {
                "?".into()
            };
            fail(Viol::new("panic", format!("the library panicked: {}; {}", m, describe_threads())))
        }
    }
}

fn begin(kind: OpK, p: usize, src: usize) -> usize {
    let q = s().next_seq();
    let s = s();
    let inc = s.w.hist.srcs.get(src).map_or(0, |x| x.incs.len().saturating_sub(1));
    s.w.hist.ops.push(Op {
        tid: s.cur,
        kind,
        p,
        s: src,
        inc,
        call: q,
        t_call: s.now,
        ret: PENDING,
        t_ret: 0,
        res: None,
        evs: vec![],
        sleep: 0,
        blocks: 0,
        kwaits: 0,
        emptied: 0,
        fault: false,
        in_kernel: false,
    });
    let i = s.w.hist.ops.len() - 1;
    s.w.hist.index(i);
    let c = s.cur;
    s.threads[c].cur_op = i;
    s.logf(|| format!("CALL {}", s_text(i)));
    s.stats.add("calls", 1);
    i
}

fn s_text(i: usize) -> String {
    s().w.hist.ops[i].text()
}

fn end(i: usize, r: R) {
    let q = s().next_seq();
    let s = s();
    let c = s.cur;
    s.threads[c].cur_op = NO_OP;
    let now = s.now;
    let o = &mut s.w.hist.ops[i];
    o.ret = q;
    o.t_ret = now;
    o.res = Some(r);
    s.ihash = crate::rng::mix(s.ihash ^ hash_op(&s.w.hist.ops[i]));
    s.logf(|| format!("RET  {}", s_text(i)));
    let v = oracle::on_return(i);
    probes(i);
    if let Some(v) = v {
        fail(v);
    }
}

fn hash_op(o: &Op) -> u64 {
    let mut h = o.tid as u64 ^ (o.evs.len() as u64) << 8 ^ (o.blocks as u64) << 16;
    h ^= match &o.res {
        Some(R::Ok(n)) => (*n as u64) << 32,
        Some(R::Err(k, _)) => (1 << 60) | (*k as u64) << 40,
        None => 0,
    };
    for e in &o.evs {
        h = crate::rng::mix(h ^ e.key as u64 ^ ((e.r as u64) << 1 | (e.w as u64) << 2 | (e.hup as u64) << 3) << 58);
    }
    h
}

/// Counts how often rare situations were reached.
fn probes(i: usize) {
    let s = s();
    let h = &s.w.hist;
    let o = &h.ops[i];
    let mut hit: Vec<&'static str> = Vec::new();
    let during_wait = || h.waits[o.p].iter().any(|&w| h.ops[w].in_kernel && h.ops[w].ret == PENDING);
    match &o.kind {
        OpK::Wait { to, .. } => {
            if o.blocks > 0 {
                hit.push("reach_wait_slept");
            }
            if o.blocks > 1 {
                hit.push("reach_wait_slept_again");
            }
            if o.evs.len() > 1 {
                hit.push("reach_wait_several_events");
            }
            if o.evs.iter().any(|e| e.hup) {
                hit.push("reach_event_hup");
            }
            if o.evs.iter().any(|e| e.pri) {
                hit.push("reach_event_pri");
            }
            if o.evs.iter().any(|e| e.err) {
                hit.push("reach_event_err");
            }
            if matches!(o.res, Some(R::Err(..))) {
                hit.push("reach_wait_failed");
            }
            if to.map_or(false, |t| t.as_millis() > u32::MAX as u128) && o.t_ret - o.t_call > 49 * 86400 * 1_000_000_000 {
                hit.push("reach_wait_longer_than_u32_ms");
            }
        }
        OpK::Add { .. } | OpK::Mod { .. } | OpK::Del => {
            if during_wait() {
                hit.push("reach_change_while_wait_blocked");
            }
            if !o.ok() {
                hit.push("reach_change_failed");
            }
        }
        OpK::Notify if during_wait() => hit.push("reach_notify_while_wait_blocked"),
        OpK::Post { .. } if during_wait() => hit.push("reach_post_while_wait_blocked"),
        _ => {}
    }
    for x in hit {
        s.stats.add(x, 1);
    }
}

fn res_of<T>(r: std::io::Result<T>, n: usize) -> R {
    match r {
        Ok(_) => R::Ok(n),
        Err(e) => R::Err(e.kind(), e.raw_os_error()),
    }
}

pub fn new_poller(p: usize, fail_at: Option<u32>) -> bool {
    yield_point();
    while s().w.pollers.len() <= p {
        s().w.pollers.push(None);
    }
    let i = begin(OpK::New, p, usize::MAX);
    let c = s().cur;
    s().w.creating[c] = Some(Creating { n: 0, fail_at, failed: false });
    let r = lib(pollwrap::new);
    s().w.creating[c] = None;
    let ok = r.is_ok();
    let res = match r {
        Ok(h) => {
            let (level, edge) = lib(|| pollwrap::supports(&h));
            if !level || edge {
                fail(Viol::new("supports", format!("level {} edge {}", level, edge)));
            }
            s().w.pollers[p] = Some(Rc::new(h));
            R::Ok(0)
        }
        Err(e) => res_of::<()>(Err(e), 0),
    };
    end(i, res);
    ok
}

fn handle(p: usize) -> Option<Rc<Poller>> {
    s().w.pollers.get(p).and_then(|x| x.clone())
}

fn drop_poller(p: usize) {
    yield_point();
    let h = match s().w.pollers.get_mut(p).and_then(|x| x.take()) {
        Some(h) => h,
        None => return,
    };
    match Rc::try_unwrap(h) {
        Ok(h) => {
            let i = begin(OpK::Drop, p, usize::MAX);
            lib(|| pollwrap::drop_poller(h));
            end(i, R::Ok(0));
        }
        Err(h) => {
            // In use by another thread: not now.
            s().w.pollers[p] = Some(h);
        }
    }
}

fn event(key: usize, int: u8) -> Event {
    if int & I_REUSE != 0 {
        // An event is a plain value: one that was delivered may be changed and passed on as an interest.
        let sim = s();
        if let Some(mut e) = sim.w.last_event.get(sim.cur).copied().flatten() {
            e.key = key;
            e.readable = int & I_R != 0;
            e.writable = int & I_W != 0;
            e.set_priority(int & I_PRI != 0);
            e.set_interrupt(int & I_HUP != 0);
            return e;
        }
    }
    let mut e = match int & (I_R | I_W) {
        0 => Event::none(key),
        I_R => Event::readable(key),
        I_W => Event::writable(key),
        _ => Event::all(key),
    };
    if int & I_PRI != 0 {
        e = e.with_priority();
    }
    if int & I_HUP != 0 {
        e = e.with_interrupt();
    }
    e
}

fn mode(m: u8) -> PollMode {
    match m {
        ONESHOT => PollMode::Oneshot,
        LEVEL => PollMode::Level,
        EDGE => PollMode::Edge,
        _ => PollMode::EdgeOneshot,
    }
}

struct Use(usize);
impl Drop for Use {
    fn drop(&mut self) {
        s().w.hist.srcs[self.0].users -= 1;
    }
}

fn use_src(x: usize) -> Option<(usize, Use)> {
    let v = &mut s().w.hist.srcs[x];
    if v.closing {
        return None;
    }
    v.users += 1;
    Some((v.incs.last().unwrap().handle, Use(x)))
}

fn change(p: usize, x: usize, kind: OpK) -> Option<R> {
    yield_point();
    let h = handle(p)?;
    let (fd, _use) = use_src(x)?;
    let sock = matches!(s().w.hist.srcs[x].kind, Kind::Sock { .. });
    let i = begin(kind.clone(), p, x);
    let r = lib(|| match (kind, sock) {
        (OpK::Add { key, int, .. }, true) if int & I_DEFAULT_API != 0 => pollwrap::add_default(&h, fd, event(key, int)),
        (OpK::Add { key, int, mode: m }, true) => pollwrap::add(&h, fd, event(key, int), mode(m)),
        (OpK::Add { key, int, mode: m }, false) => pollwrap::add_waitable(&h, fd, event(key, int), mode(m)),
        (OpK::Mod { key, int, .. }, true) if int & I_DEFAULT_API != 0 => {
            pollwrap::modify_default(&h, fd, event(key, int))
        }
        (OpK::Mod { key, int, mode: m }, true) => pollwrap::modify(&h, fd, event(key, int), mode(m)),
        (OpK::Mod { key, int, mode: m }, false) => pollwrap::modify_waitable(&h, fd, event(key, int), mode(m)),
        (_, true) => pollwrap::delete(&h, fd),
        (_, false) => pollwrap::remove_waitable(&h, fd),
    });
    let r = res_of(r, 0);
    drop(h);
    end(i, r.clone());
    Some(r)
}

pub fn do_notify(p: usize) -> Option<R> {
    yield_point();
    let h = handle(p)?;
    let i = begin(OpK::Notify, p, usize::MAX);
    let r = lib(|| pollwrap::notify(&h));
    let r = res_of(r, 0);
    drop(h);
    end(i, r.clone());
    Some(r)
}

fn do_post(p: usize, key: usize, int: u8) {
    yield_point();
    let Some(h) = handle(p) else { return };
    let i = begin(OpK::Post { key, int }, p, usize::MAX);
    let r = lib(|| {
        let k = pollwrap::packet(event(key, int));
        pollwrap::post(&h, k)
    });
    let r = res_of(r, 0);
    drop(h);
    end(i, r);
}

pub fn do_wait(p: usize, to: Option<Duration>, evs: &mut Events) -> Option<usize> {
    yield_point();
    let h = handle(p)?;
    evs.clear();
    let cap = evs.capacity().get();
    let i = begin(OpK::Wait { to, cap }, p, usize::MAX);
    let r = lib(|| pollwrap::wait(&h, evs, to));
    if r.is_ok() {
        if let Some(e) = evs.iter().last() {
            let sim = s();
            sim.w.last_event[sim.cur] = Some(e);
        }
    }
    let list: Vec<Ev> = match &r {
        Ok(_) => evs
            .iter()
            .map(|e| Ev {
                key: e.key,
                r: e.readable,
                w: e.writable,
                pri: e.is_priority(),
                hup: e.is_interrupt(),
                err: e.is_err() == Some(true),
            })
            .collect(),
        Err(_) => Vec::new(),
    };
    if let Ok(n) = &r {
        if *n != list.len() || evs.len() != list.len() {
            fail(Viol::new("event_count", format!("wait returned {} but the buffer holds {} events", n, list.len())));
        }
    }
    let n = list.len();
    s().w.hist.ops[i].evs = list;
    let res = res_of(r, n);
    drop(h);
    end(i, res);
    Some(n)
}

// ---------------------------------------------------------------- sources

fn open_src(x: usize) {
    let q = s().next_seq();
    let s = s();
    let def = s.w.sc.srcs[x].clone();
    let mut v = crate::kernel::Src::default();
    let bits = match def.kind {
        Kind::Sock { layered } => {
            v.handle = s.k.open(Obj::Sock(x));
            v.base = if layered { s.k.open(Obj::Sock(x)) } else { v.handle };
            v.bits = def.init;
            def.init
        }
        Kind::Event { manual } => {
            v.handle = s.k.open(Obj::Event(x));
            v.manual = manual;
            v.signaled = def.init & 1 != 0;
            def.init & 1
        }
    };
    let handle = v.handle;
    s.k.srcs[x] = v;
    s.w.hist.srcs[x].incs.push(Inc {
        handle,
        line: vec![(q, bits)],
        signals: if bits & 1 != 0 { vec![q] } else { vec![] },
        closed: PENDING,
    });
    s.logf(|| format!("SRC  s{} {:?} handle {:#x} conditions {:#x}", x, def.kind, handle, bits));
}

pub fn do_src(x: usize, set: u32, clr: u32) {
    yield_point();
    let q = s().next_seq();
    let s = s();
    if s.w.hist.srcs[x].closing {
        return;
    }
    let v = &mut s.k.srcs[x];
    let kind = s.w.hist.srcs[x].kind;
    let inc = s.w.hist.srcs[x].incs.last_mut().unwrap();
    let new = match kind {
        Kind::Sock { .. } => {
            v.bits = (v.bits | set) & !clr;
            v.bits
        }
        Kind::Event { .. } => {
            if set & 1 != 0 {
                v.signaled = true;
                inc.signals.push(q);
            } else if clr & 1 != 0 {
                v.signaled = false;
            }
            v.signaled as u32
        }
    };
    inc.line.push((q, new));
    s.stats.add("source_changes", 1);
    s.logf(|| format!("SRC  s{} conditions {:#x}", x, new));
    match kind {
        Kind::Sock { .. } => s.k.sock_changed(x),
        Kind::Event { .. } => s.k.event_changed(x),
    }
}

fn do_reopen(x: usize) {
    // The caller's duty: nobody uses it, delete the registration everywhere, then close.
    {
        let v = &mut s().w.hist.srcs[x];
        if v.closing || v.users > 0 {
            return;
        }
        v.closing = true;
    }
    let np = s().w.pollers.len();
    for p in 0..np {
        if let Some(R::Err(..)) = delete_closing(p, x) {
            s().w.hist.srcs[x].closing = false;
            return;
        }
    }
    yield_point();
    let q = s().next_seq();
    let s_ = s();
    if let Some(v) = oracle::before_close(x) {
        fail(v);
    }
    let v = s_.k.srcs[x].clone();
    s_.w.hist.srcs[x].incs.last_mut().unwrap().closed = q;
    s_.k.sock_closed(x);
    s_.k.close(v.handle);
    if v.base != v.handle && v.base != 0 {
        s_.k.close(v.base);
    }
    s_.logf(|| format!("SRC  s{} closed", x));
    s_.stats.add("source_reopened", 1);
    yield_point();
    open_src(x);
    s().w.hist.srcs[x].closing = false;
}

fn delete_closing(p: usize, x: usize) -> Option<R> {
    // `closing` keeps the others out, but not this call.
    yield_point();
    let h = handle(p)?;
    let fd = s().w.hist.srcs[x].incs.last().unwrap().handle;
    let sock = matches!(s().w.hist.srcs[x].kind, Kind::Sock { .. });
    let i = begin(OpK::Del, p, x);
    let r = lib(|| if sock { pollwrap::delete(&h, fd) } else { pollwrap::remove_waitable(&h, fd) });
    let r = res_of(r, 0);
    drop(h);
    end(i, r.clone());
    Some(r)
}

// ---------------------------------------------------------------- threads

fn perform(a: &Act, evs: &mut Events) {
    match a {
        Act::Add { p, s, key, int, mode } => {
            change(*p, *s, OpK::Add { key: *key, int: *int, mode: *mode });
        }
        Act::Mod { p, s, key, int, mode } => {
            change(*p, *s, OpK::Mod { key: *key, int: *int, mode: *mode });
        }
        Act::Del { p, s } => {
            change(*p, *s, OpK::Del);
        }
        Act::Wait { p, to } => {
            do_wait(*p, *to, evs);
        }
        Act::Notify { p } => {
            do_notify(*p);
        }
        Act::Post { p, key, int } => do_post(*p, *key, *int),
        Act::Src { s, set, clr } => do_src(*s, *set, *clr),
        Act::Reopen { s } => do_reopen(*s),
        Act::Sleep(n) => {
            yield_point();
            sim::sleep(*n)
        }
        Act::Drop { p } => drop_poller(*p),
        Act::Temp { fail } => {
            let p = s().w.pollers.len();
            s().w.pollers.push(None);
            if new_poller(p, *fail) || new_poller(p, None) {
                do_notify(p);
                do_wait(p, Some(Duration::from_micros(1500)), evs);
                drop_poller(p);
            }
        }
        Act::Storm { p, s, key, int, mode, n } => {
            for _ in 0..*n {
                change(*p, *s, OpK::Mod { key: *key, int: *int, mode: *mode });
            }
        }
    }
}

/// A thread of the system's pool: runs the callbacks of registered waits.
fn pool_thread() {
    loop {
        sim::block(Blk::Pool, sim::NEVER, sim::NEVER);
        let Some(n) = s().k.callbacks.pop_front() else {
            if s().k.stop {
                return;
            }
            continue;
        };
        yield_point();
        let (cb, ctx) = {
            let w = &mut s().k.waits[n];
            w.st = WaitSt::Running;
            s().k.running.insert(s().cur, n);
            (w.cb, w.ctx)
        };
        s().stats.add("callbacks", 1);
        s().logf(|| format!("callback of wait {}", n));
        let f: unsafe extern "system" fn(usize, u8) = unsafe { std::mem::transmute(cb) };
        lib(|| unsafe { f(ctx, 0) });
        s().k.running.remove(&s().cur);
        s().k.waits[n].st = WaitSt::Done;
    }
}

pub fn build(sc: &Scenario) {
    // Threads 0..n are the scenario's, then the pool's; the last one is the janitor, which sets up and cleans up.
    let s_ = s();
    for (cap, acts) in sc.threads.iter() {
        let (cap, acts) = (*cap, acts.clone());
        s_.spawn(
            false,
            Box::new(move || {
                let mut evs = pollwrap::events(cap);
                for a in &acts {
                    perform(a, &mut evs);
                }
            }),
        );
    }
    for _ in 0..sc.pool {
        s_.spawn(true, Box::new(pool_thread));
    }
    s_.spawn(true, Box::new(janitor));
}

fn janitor() {
    let sc = s().w.sc.clone();
    let mut evs = pollwrap::events(sc.jan_cap);
    for p in 0..sc.pollers {
        if !new_poller(p, None) {
            fail(Viol::new("creation_failed", format!("creating poller p{} failed although nothing is missing", p)));
        }
    }
    for k in &sc.srcs {
        s().w.hist.srcs.push(Src { kind: k.kind, incs: vec![], closing: false, users: 0 });
        s().k.srcs.push(Default::default());
    }
    for x in 0..sc.srcs.len() {
        open_src(x);
    }
    for a in &sc.init {
        perform(a, &mut evs);
    }
    let nt = sc.threads.len();
    for t in 0..nt {
        s().threads[t].st = St::Ready;
    }
    // Wait for the scenario's threads; wake those that wait for ever, as a user would.
    let mut rounds = 0;
    loop {
        sim::quiesce();
        let busy: Vec<usize> = (0..nt).filter(|&t| !matches!(s().threads[t].st, St::Done)).collect();
        if busy.is_empty() {
            break;
        }
        rounds += 1;
        if rounds > 400 {
            fail(Viol::new("deadlock", format!("threads do not finish; {}", describe_threads())));
        }
        let mut ps: Vec<usize> = Vec::new();
        for &t in &busy {
            let o = s().threads[t].cur_op;
            if o != NO_OP && s().w.hist.ops[o].is_wait() && !ps.contains(&s().w.hist.ops[o].p) {
                ps.push(s().w.hist.ops[o].p);
            }
        }
        for p in ps {
            do_notify(p);
        }
    }
    drain(&sc, &mut evs);
    for p in 0..s().w.pollers.len() {
        drop_poller(p);
    }
    drop(evs);
    s().k.stop = true;
    sim::quiesce();
    if let Some(v) = oracle::at_end() {
        fail(v);
    }
}

fn settle(p: usize, n: usize, evs: &mut Events) {
    let from = s().w.hist.ops.len();
    for _ in 0..n {
        // Pool threads may be at it.
        sim::quiesce();
        do_wait(p, Some(Duration::ZERO), evs);
    }
    let to = s().w.hist.ops.len();
    s().w.hist.drains.push((p, from, to));
}

fn drain(sc: &Scenario, evs: &mut Events) {
    let np = s().w.pollers.len();
    let ns = sc.srcs.len();
    let cap = evs.capacity().get();
    let posts: usize = s().w.hist.posts.iter().map(|x| x.len()).max().unwrap_or(0);
    // A cancelled poll's packet, then the poll's own, for each source; level sources come again and again.
    let n = 6 + (4 * ns + posts + 2 * cap) / cap;
    for p in 0..np {
        settle(p, n, evs);
    }
    let base = 1usize << 40;
    if sc.drain >= 2 {
        for round in 0..2usize {
            for p in 0..np {
                for x in 0..ns {
                    let key = base + round * 1000 + p * 100 + x;
                    let (int, m) = if round == 0 { (I_R | I_W, ONESHOT) } else { (I_R, LEVEL) };
                    if let Some(R::Err(std::io::ErrorKind::NotFound, _)) = change(p, x, OpK::Mod { key, int, mode: m }) {
                        change(p, x, OpK::Add { key, int, mode: m });
                    }
                }
            }
            for x in 0..ns {
                do_src(x, if is_ev(x) { 1 } else { RECEIVE | SEND }, 0);
            }
            for p in 0..np {
                settle(p, n, evs);
            }
            for x in 0..ns {
                do_src(x, 0, !0);
                if round == 0 {
                    do_src(x, 1, 0);
                }
            }
            for p in 0..np {
                settle(p, n, evs);
            }
        }
    }
    if sc.drain >= 1 {
        // Silence everything that would be reported again, then probe notification and timeout.
        for p in 0..np {
            for x in 0..ns {
                change(p, x, OpK::Mod { key: base + 5000 + p * 100 + x, int: 0, mode: ONESHOT });
            }
        }
        for p in 0..np {
            settle(p, n, evs);
            if s().w.pollers[p].is_none() {
                continue;
            }
            do_notify(p);
            do_wait(p, Some(Duration::from_secs(5)), evs);
            do_wait(p, Some(Duration::ZERO), evs);
            do_wait(p, Some(Duration::from_nanos(2_500_000)), evs);
        }
    }
    if !sc.rough {
        // Delete everything; nothing may be reported afterwards.
        for x in 0..ns {
            for p in 0..np {
                change(p, x, OpK::Del);
            }
        }
        for x in 0..ns {
            do_src(x, if is_ev(x) { 1 } else { RECEIVE | SEND | DISCONNECT }, 0);
        }
        for p in 0..np {
            settle(p, 3, evs);
        }
    }
}

fn is_ev(x: usize) -> bool {
    matches!(s().w.hist.srcs[x].kind, Kind::Event { .. })
}
