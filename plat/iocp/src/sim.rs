//! The simulator: simulated threads, virtual clock, seeded scheduler, fault injection, trace recording and replay.
//!
//! Functions that may switch to another simulated thread are free functions that re-read the global state, never
//! methods holding `&mut Sim` across a switch.

use std::collections::BTreeMap;

use crate::coro::{polsim_switch, Stack};
use crate::kernel::WaitSt;
use crate::kernel::Kernel;
use crate::rng::{mix, Rng, Set};

pub const NEVER: u64 = u64::MAX;
/// Deadlines farther away than this are never jumped to.
pub const HORIZON: u64 = 100 * 365 * 86400 * 1_000_000_000;

#[derive(Clone, Debug)]
pub enum Blk {
    Futex(usize),
    /// GetQueuedCompletionStatusEx on a port object.
    Port(usize),
    /// A pool thread without work.
    Pool,
    Sleep,
}

#[derive(Clone, Debug)]
pub enum St {
    NotStarted,
    Ready,
    Blocked(Blk),
    Stalled(u64),
    Quiesce,
    Done,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wake {
    Cond,
    Timeout,
    Intr,
}

pub struct Thread {
    sp: usize,
    _stack: Stack,
    body: Option<Box<dyn FnOnce()>>,
    pub st: St,
    pub deadline: u64,
    pub intr_at: u64,
    pub futex_woken: bool,
    /// Inside a call of the library: system calls are simulated, atomics are yield points.
    pub in_lib: bool,
    /// Depth of calls from the library into the simulation.
    pub inside: u32,
    pub cur_op: usize,
    /// The last seam the thread passed through.
    pub site: u64,
    /// Atomic operations since the last system call or return, and how often that made it give way.
    pub spin: u32,
    pub gave_way: u32,
    prio: u64,
}

pub const NO_OP: usize = usize::MAX;

// ---------------------------------------------------------------- trace

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// A timeout is shorter by this many nanoseconds; a spurious wake-up for a futex after as many.
    Intr(u64),
    /// The call fails (which of its errors).
    Errno(i32),
}

#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Trace {
    /// decision index -> thread to run (where it differs from the default)
    pub switch: BTreeMap<u32, u8>,
    /// decision index -> nanoseconds the running thread is held back
    pub stall: BTreeMap<u32, u64>,
    /// fault site index -> fault
    pub fault: BTreeMap<u32, Fault>,
}

#[derive(Clone, Debug)]
pub struct Strategy {
    /// 0 = random walk, 1 = priorities with change points, 2 = few preemptions
    pub kind: u8,
    /// Preempt with probability 1/switch_den at a yield point (kind 0).
    pub switch_den: u64,
    /// Change points / forced preemptions as decision indices (kinds 1, 2).
    pub points: Vec<u32>,
    /// Stall points: decision index -> ns.
    pub stalls: Vec<(u32, u64)>,
    /// Per 1024: a timeout ends early.
    pub p_early: u64,
    /// Per 1024: spurious futex wake-up.
    pub p_spurious: u64,
    /// Per 1024: a system call fails for want of resources.
    pub p_errno: u64,
    pub max_faults: u32,
}

pub enum Mode {
    Search { rng: Rng, frng: Rng, strat: Strategy },
    Replay(Trace),
}

// ---------------------------------------------------------------- statistics

#[derive(Clone, Default)]
pub struct Stats {
    pub m: BTreeMap<&'static str, u64>,
}

impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.m.entry(k).or_insert(0) += n;
    }
    pub fn get(&self, k: &'static str) -> u64 {
        self.m.get(k).copied().unwrap_or(0)
    }
}

// ---------------------------------------------------------------- sim

pub struct Sim {
    pub now: u64,
    pub t0: u64,
    pub seq: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub threads: Vec<Thread>,
    pub cur: usize,
    main_sp: usize,
    pub k: Kernel,
    pub futexq: Vec<(usize, usize)>,
    pub mode: Mode,
    pub dec: u32,
    pub fsite: u32,
    pub trace: Trace,
    pub cost: u64,
    pub ihash: u64,
    /// Where threads were taken over by which others: a measure of the interleavings reached.
    pub pairs: Set<u64>,
    pub stats: Stats,
    pub w: crate::exec::World,
    pub viol: Option<crate::oracle::Viol>,
    pub log: Option<Vec<String>>,
    pub rand_state: u64,
    pub real_jump: i64,
    pub nswitch: u64,
}

static mut SIM: *mut Sim = std::ptr::null_mut();
static mut ACTIVE: bool = false;

#[inline(always)]
pub fn s() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
#[inline(always)]
pub fn active() -> bool {
    unsafe { ACTIVE }
}
/// True while the current simulated thread executes library code.
#[inline(always)]
pub fn in_lib() -> bool {
    unsafe {
        ACTIVE && {
            let s = &*SIM;
            s.threads[s.cur].in_lib
        }
    }
}
/// A call from the library into the simulation is being carried out.
pub struct Inside(usize);
#[inline(always)]
pub fn inside() -> Inside {
    let s = s();
    s.threads[s.cur].inside += 1;
    Inside(s.cur)
}
impl Drop for Inside {
    #[inline(always)]
    fn drop(&mut self) {
        s().threads[self.0].inside -= 1;
    }
}
/// True in the library's own code.
#[inline(always)]
pub fn own_code() -> bool {
    in_lib() && {
        let s = s();
        s.threads[s.cur].inside == 0
    }
}

pub fn install(p: *mut Sim) {
    unsafe {
        SIM = p;
        ACTIVE = false;
    }
}

impl Thread {
    pub fn take_body(&mut self) -> Option<Box<dyn FnOnce()>> {
        self.body.take()
    }
}

impl Sim {
    pub fn new(mode: Mode, w: crate::exec::World) -> Sim {
        Sim {
            now: 1_000_000_000_000,
            t0: 1_000_000_000_000,
            seq: 0,
            steps: 0,
            max_steps: 400_000,
            threads: Vec::new(),
            cur: 0,
            main_sp: 0,
            k: Kernel::default(),
            futexq: Vec::new(),
            mode,
            dec: 0,
            fsite: 0,
            trace: Trace::default(),
            cost: 100,
            ihash: 0,
            pairs: Set::default(),
            stats: Stats::default(),
            w,
            viol: None,
            log: None,
            rand_state: 1,
            real_jump: 0,
            nswitch: 0,
        }
    }

    pub fn spawn(&mut self, started: bool, f: Box<dyn FnOnce()>) -> usize {
        let stack = Stack::new();
        let sp = stack.prepare(entry);
        let prio = match &mut self.mode {
            Mode::Search { rng, .. } => rng.next() >> 1,
            _ => 0,
        };
        self.threads.push(Thread {
            sp,
            _stack: stack,
            body: Some(f),
            st: if started { St::Ready } else { St::NotStarted },
            deadline: NEVER,
            intr_at: NEVER,
            futex_woken: false,
            in_lib: false,
            inside: 0,
            cur_op: NO_OP,
            site: 0,
            spin: 0,
            gave_way: 0,
            prio,
        });
        self.threads.len() - 1
    }

    pub fn next_seq(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }

    pub fn logf(&mut self, f: impl FnOnce() -> String) {
        if self.log.is_some() {
            let line = format!("{:>12} t{} #{} {}", self.now - self.t0, self.cur, self.seq, f());
            self.log.as_mut().unwrap().push(line);
        }
    }

    fn cond(&self, b: &Blk, t: &Thread) -> bool {
        match b {
            Blk::Futex(_) => t.futex_woken,
            Blk::Port(p) => !self.k.ports[*p].q.is_empty(),
            Blk::Pool => !self.k.callbacks.is_empty() || self.k.stop,
            Blk::Sleep => false,
        }
    }

    pub fn runnable(&self, i: usize) -> bool {
        let t = &self.threads[i];
        match &t.st {
            St::Ready => true,
            St::Blocked(b) => t.deadline <= self.now || t.intr_at <= self.now || self.cond(b, t),
            St::Stalled(u) => *u <= self.now,
            _ => false,
        }
    }

    /// The thread is inside a kernel wait for I/O and has no reason to return from it.
    pub fn here(&mut self, site: u64) {
        let c = self.cur;
        self.threads[c].site = site;
    }

    fn whereabouts(&self, t: usize) -> Option<u64> {
        let th = &self.threads[t];
        if th.cur_op == NO_OP {
            return None;
        }
        Some(mix(th.site ^ ((self.w.hist.ops[th.cur_op].kind.code() as u64) << 60)))
    }

    pub fn sleeping(&self, i: usize) -> bool {
        matches!(self.threads[i].st, St::Blocked(Blk::Port(_))) && !self.runnable(i)
    }

    pub fn advance(&mut self, dt: u64) {
        if dt == 0 {
            return;
        }
        for i in 0..self.threads.len() {
            if self.threads[i].cur_op != NO_OP && self.sleeping(i) {
                let op = self.threads[i].cur_op;
                self.w.hist.ops[op].sleep += dt;
            }
        }
        self.now += dt;
    }

    /// Consults (search) or looks up (replay) the fault at the next fault site.
    pub fn fault(&mut self, kind: FaultSite, budget: Option<u64>) -> Option<Fault> {
        let site = self.fsite;
        self.fsite += 1;
        let f = match &mut self.mode {
            Mode::Replay(t) => t.fault.get(&site).copied(),
            Mode::Search { frng, strat, .. } => {
                let p = match kind {
                    FaultSite::Timer => strat.p_early,
                    FaultSite::Futex => strat.p_spurious,
                    FaultSite::Call => strat.p_errno,
                };
                if p == 0 || self.trace.fault.len() >= strat.max_faults as usize || !frng.chance(p, 1024) {
                    None
                } else {
                    Some(match kind {
                        FaultSite::Timer => Fault::Intr(frng.log_range(1, budget.unwrap_or(1).clamp(1, 15_600_000))),
                        FaultSite::Futex => Fault::Intr(match frng.below(3) {
                            0 => 0,
                            1 => frng.log_range(100, 1_000_000),
                            _ => frng.log_range(1000, 50_000_000),
                        }),
                        FaultSite::Call => Fault::Errno(frng.below(2) as i32),
                    })
                }
            }
        };
        if let Some(x) = f {
            self.trace.fault.insert(site, x);
            self.stats.add(
                match kind {
                    FaultSite::Timer => "fault_timer_early",
                    FaultSite::Futex => "fault_futex_spurious",
                    FaultSite::Call => "fault_system_call_failed",
                },
                1,
            );
            self.logf(|| format!("fault {:?} {:?}", kind, x));
        }
        f
    }
}

#[derive(Clone, Copy, Debug)]
pub enum FaultSite {
    /// The timeout of a wait ends a little early.
    Timer,
    Futex,
    /// The call fails for want of resources.
    Call,
}

extern "C" fn entry() -> ! {
    let f = {
        let s = s();
        let c = s.cur;
        s.threads[c].body.take().unwrap()
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    if r.is_err() {
        let s = s();
        if s.viol.is_none() {
            s.viol = Some(crate::oracle::Viol::new("harness", "panic in the harness".into()));
        }
        abort_run();
    }
    let s_ = s();
    let c = s_.cur;
    s_.threads[c].st = St::Done;
    reschedule();
    unreachable!()
}

/// Runs all threads until every one is done or the run is aborted.
pub fn run() {
    unsafe {
        ACTIVE = true;
        let s = s();
        s.cur = (0..s.threads.len()).find(|&i| s.runnable(i)).expect("a runnable thread");
        let save = &mut s.main_sp as *mut usize;
        let to = s.threads[s.cur].sp;
        polsim_switch(save, to);
        ACTIVE = false;
    }
}

fn to_main() -> ! {
    unsafe {
        let s = s();
        let c = s.cur;
        let save = &mut s.threads[c].sp as *mut usize;
        let to = s.main_sp;
        polsim_switch(save, to);
    }
    unreachable!()
}

/// Ends the run at once; simulated threads are abandoned where they are.
pub fn abort_run() -> ! {
    to_main()
}

pub fn fail(v: crate::oracle::Viol) -> ! {
    let s = s();
    if s.viol.is_none() {
        s.logf(|| format!("VIOLATION {}: {}", v.rule, v.msg));
        s.viol = Some(v);
    }
    abort_run()
}

fn switch_to(t: usize) {
    let s = s();
    if t == s.cur {
        return;
    }
    let c = s.cur;
    s.nswitch += 1;
    s.ihash = mix(s.ihash ^ ((c as u64) << 56) ^ ((t as u64) << 48) ^ s.seq ^ ((s.dec as u64) << 20));
    if let (Some(a), Some(b)) = (s.whereabouts(c), s.whereabouts(t)) {
        s.pairs.insert(mix(a ^ b.rotate_left(29)));
    }
    s.cur = t;
    let save = &mut s.threads[c].sp as *mut usize;
    let to = s.threads[t].sp;
    unsafe { polsim_switch(save, to) };
}

fn step() {
    let s = s();
    s.steps += 1;
    if s.steps > s.max_steps {
        fail(crate::oracle::Viol::new(
            "livelock",
            format!(
                "no end after {} scheduling steps; {}",
                s.max_steps,
                crate::exec::describe_threads()
            ),
        ));
    }
}

/// A point where the scheduler may run another thread.
pub fn yield_point() {
    if std::thread::panicking() {
        return;
    }
    step();
    let s = s();
    let d = s.dec;
    s.dec += 1;
    let cur = s.cur;
    let mut stall = None;
    let mut next = None;
    match &mut s.mode {
        Mode::Replay(t) => {
            stall = t.stall.get(&d).copied();
            next = t.switch.get(&d).map(|&x| x as usize);
        }
        Mode::Search { rng, strat, .. } => {
            if let Some(&(_, ns)) = strat.stalls.iter().find(|x| x.0 == d) {
                stall = Some(ns);
            } else {
                match strat.kind {
                    0 => {
                        if rng.chance(1, strat.switch_den) {
                            let c: Vec<usize> =
                                (0..s.threads.len()).filter(|&i| i != cur && s.runnable(i)).collect();
                            if !c.is_empty() {
                                if let Mode::Search { rng, .. } = &mut s.mode {
                                    next = Some(*rng.pick(&c));
                                }
                            }
                        }
                    }
                    1 => {
                        if strat.points.contains(&d) {
                            // Lowest priority so far.
                            s.threads[cur].prio = rng.below(1 << 20);
                        }
                        let best = best_prio();
                        if best != cur {
                            next = Some(best);
                        }
                    }
                    _ => {
                        if strat.points.contains(&d) {
                            let c: Vec<usize> =
                                (0..s.threads.len()).filter(|&i| i != cur && s.runnable(i)).collect();
                            if !c.is_empty() {
                                if let Mode::Search { rng, .. } = &mut s.mode {
                                    next = Some(*rng.pick(&c));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    if let Some(ns) = stall {
        s.trace.stall.insert(d, ns);
        s.stats.add("fault_thread_stall", 1);
        let until = s.now.saturating_add(ns);
        s.logf(|| format!("stalled for {} ns", ns));
        s.threads[cur].st = St::Stalled(until);
        reschedule();
        return;
    }
    if let Some(t) = next {
        if t != cur && t < s.threads.len() && s.runnable(t) {
            s.trace.switch.insert(d, t as u8);
            // `cur` stays Ready.
            resume(t);
        }
    }
}

fn best_prio() -> usize {
    let s = s();
    let mut best = s.cur;
    let mut bp = if matches!(s.threads[s.cur].st, St::Ready) { s.threads[s.cur].prio } else { 0 };
    let mut found = matches!(s.threads[s.cur].st, St::Ready);
    for i in 0..s.threads.len() {
        if s.runnable(i) && (!found || s.threads[i].prio > bp) {
            best = i;
            bp = s.threads[i].prio;
            found = true;
        }
    }
    best
}

fn resume(t: usize) {
    let s = s();
    if let St::Stalled(_) = s.threads[t].st {
        s.threads[t].st = St::Ready;
    }
    switch_to(t);
}

/// The current thread cannot continue (blocked, stalled or done): run something else until it can.
pub fn reschedule() {
    loop {
        step();
        let s = s();
        let cur = s.cur;
        let c: Vec<usize> = (0..s.threads.len()).filter(|&i| s.runnable(i)).collect();
        if c.is_empty() {
            if s.threads.iter().all(|t| matches!(t.st, St::Done)) {
                to_main();
            }
            idle();
            continue;
        }
        let d = s.dec;
        s.dec += 1;
        let n = s.threads.len();
        let default = (1..=n).map(|k| (cur + k) % n).find(|i| c.contains(i)).unwrap();
        let t = match &mut s.mode {
            Mode::Replay(tr) => match tr.switch.get(&d) {
                Some(&x) if c.contains(&(x as usize)) => x as usize,
                _ => default,
            },
            Mode::Search { rng, strat, .. } => {
                if strat.kind == 1 {
                    best_prio()
                } else {
                    *rng.pick(&c)
                }
            }
        };
        if t != default {
            s.trace.switch.insert(d, t as u8);
        }
        resume(t);
        return;
    }
}

/// Nothing can run: check the quiescent state, then move the clock or wake the janitor.
fn idle() {
    let s = s();
    // A thread held back in the middle of a library call may legitimately delay others.
    let quiet = !s
        .threads
        .iter()
        .any(|t| matches!(t.st, St::Stalled(_) | St::Blocked(Blk::Sleep)) && (t.cur_op != NO_OP || t.in_lib))
        && !s.k.waits.iter().any(|w| matches!(w.st, WaitSt::Queued | WaitSt::Running));
    if quiet {
        s.stats.add("quiescent_checks", 1);
        if let Some(v) = crate::oracle::idle_check() {
            fail(v);
        }
    }
    // Waits may be longer than a run can last: they are ended by notifications instead.
    let budget = if s.now - s.t0 > HORIZON { 86_400 * 1_000_000_000 } else { HORIZON };
    let mut next = NEVER;
    for t in &s.threads {
        match t.st {
            St::Stalled(u) => next = next.min(u),
            St::Blocked(_) => next = next.min(t.deadline).min(t.intr_at),
            _ => {}
        }
    }
    // A wait that should have timed out by itself: give it the chance to be caught oversleeping.
    for i in 0..s.threads.len() {
        let op = s.threads[i].cur_op;
        if op != NO_OP && s.sleeping(i) {
            let o = &s.w.hist.ops[op];
            if let crate::exec::OpK::Wait { to: Some(t), .. } = o.kind {
                let lim = t.as_nanos() + crate::oracle::SLACK as u128 + 1;
                if lim < budget as u128 {
                    next = next.min(s.now + (lim as u64).saturating_sub(o.sleep));
                }
            }
        }
    }
    if next != NEVER && next - s.now <= budget {
        let dt = next - s.now;
        s.stats.add("clock_jumps", 1);
        s.advance(dt);
        return;
    }
    if let Some(i) = s.threads.iter().position(|t| matches!(t.st, St::Quiesce)) {
        s.threads[i].st = St::Ready;
        return;
    }
    fail(crate::oracle::Viol::new(
        "deadlock",
        format!("every thread is blocked for ever; {}", crate::exec::describe_threads()),
    ));
}

/// Blocks the current thread.
pub fn block(b: Blk, deadline: u64, intr_at: u64) -> Wake {
    {
        let s = s();
        let c = s.cur;
        s.threads[c].st = St::Blocked(b.clone());
        s.threads[c].deadline = deadline;
        s.threads[c].intr_at = intr_at;
        s.threads[c].futex_woken = false;
    }
    reschedule();
    let s = s();
    let c = s.cur;
    let cond = s.cond(&b, &s.threads[c]);
    let t = &mut s.threads[c];
    t.st = St::Ready;
    let w = if cond {
        Wake::Cond
    } else if t.intr_at <= s.now {
        Wake::Intr
    } else {
        Wake::Timeout
    };
    t.deadline = NEVER;
    t.intr_at = NEVER;
    w
}

/// The janitor waits until nothing else can happen.
pub fn quiesce() {
    let s_ = s();
    let c = s_.cur;
    s_.threads[c].st = St::Quiesce;
    reschedule();
}

pub fn sleep(ns: u64) {
    let d = s().now.saturating_add(ns);
    block(Blk::Sleep, d, NEVER);
}
