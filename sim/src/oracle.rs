//! What must hold: checked at every return, at every quiescent state and at the end of a run, from the recorded history
//! alone (calls, returns, source conditions, time asleep, descriptors), never from the library's internals.
//!
//! All reasoning is interval based: an operation takes effect at some instant between its call and its return, so a
//! registration is *possibly* in force from its call to the return of whatever replaces it, and *definitely* in force from
//! its return to the call of anything that might replace it. Rules that forbid use the wide interval, rules that demand
//! use the narrow one.


use crate::exec::{describe_threads, Hist, Op, OpK, PENDING, R};
use crate::rng::Set;
use crate::kernel::*;
use crate::scenario::*;
use crate::sim::{fail, s, Blk, St, NO_OP};

#[derive(Clone, Debug)]
pub struct Viol {
    pub rule: &'static str,
    /// Properties the violation counts for; empty = every property.
    pub props: Vec<&'static str>,
    pub msg: String,
}

impl Viol {
    pub fn new(rule: &'static str, msg: String) -> Viol {
        let props: &[&str] = match rule {
            "event_count" | "events_buffer" => &["C05", "C16"],
            "event_extra" => &["C17", "C05"],
            "creation_failed" => &["C13"],
            "user_fd_touched" | "bad_close" => &["C14", "C15"],
            // A panic, a crash, a hang or a livelock breaks whatever was being done.
            _ => &[],
        };
        Viol { rule, props: kq_props(props.to_vec()), msg }
    }
    pub fn of(rule: &'static str, props: Vec<&'static str>, msg: String) -> Viol {
        let mut props = kq_props(props);
        props.sort();
        props.dedup();
        Viol { rule, props, msg }
    }
    pub fn counts_for(&self, prop: &str) -> bool {
        self.rule != "harness" && (self.props.is_empty() || self.props.contains(&prop))
    }
}

/// Something wrong seen by the simulated kernel during a call.
pub fn note(rule: &'static str, msg: String) {
    fail(Viol::new(rule, format!("{}; {}", msg, describe_threads())))
}

pub const SLACK: u64 = 1_100_000;

pub const POLL_BACKEND: bool = cfg!(polling_test_poll_backend);

/// The kqueue backend, as generated by `plat/gen.py`.
pub const KQ: bool = cfg!(polsim_kqueue);

/// The event port backend, likewise.
pub const PORT: bool = cfg!(polsim_port);

/// The `poll` backend as compiled for ESP-IDF, Hermit, Vita and Haiku, and the `epoll` backend for Redox, likewise.
pub const ESP: bool = cfg!(polsim_esp);
pub const HERMIT: bool = cfg!(polsim_hermit);
pub const VITA: bool = cfg!(polsim_vita);
pub const HAIKU: bool = cfg!(polsim_haiku);
pub const REDOX: bool = cfg!(polsim_redox);

/// What the rules found, as properties of the kqueue backend: C22 what is registered and reported, C27 waiting, notifying
/// and resources.
fn kq_props(v: Vec<&'static str>) -> Vec<&'static str> {
    if PORT || ESP || HERMIT || VITA || HAIKU || REDOX {
        return match PORT {
            _ if v.is_empty() => v,
            true => vec!["C28"],
            false => vec!["C29"],
        };
    }
    if !KQ {
        return v;
    }
    v.into_iter()
        .map(|p| match p {
            "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C15" | "C16" | "C17" | "C18" | "C20" => "C22",
            _ => "C27",
        })
        .collect()
}

/// On kqueue the readiness to read and the readiness to write are two reports, one-shot each on its own: the half an event
/// speaks of (1 or 2; 0 elsewhere).
pub fn event_half(r: bool, w: bool) -> u8 {
    if !KQ {
        0
    } else if w && !r {
        2
    } else {
        1
    }
}

pub fn xkey(key: usize, half: u8) -> u128 {
    key as u128 | (half as u128) << 64
}

// ---------------------------------------------------------------- registrations

#[derive(Clone, Debug)]
struct Arm {
    op: usize,
    s: usize,
    inc: usize,
    key: usize,
    /// What its events carry (`Ev::xk`).
    xk: u128,
    int: u8,
    mode: u8,
    /// possibly in force from
    from: u64,
    /// definitely in force from (if nothing else interferes)
    sure: u64,
    /// possibly replaced from
    pend: u64,
    /// definitely replaced from
    dend: u64,
}

fn arms_of(h: &Hist, p: usize, x: usize) -> Vec<Arm> {
    let Some(list) = h.chg.get(p).and_then(|v| v.get(x)) else { return Vec::new() };
    let effective = |o: &Op| o.res.is_none() || o.ok();
    let mut out = Vec::new();
    for &i in list {
        let o = &h.ops[i];
        if !effective(o) {
            // Of an inner kqueue only reading can be watched: until the call has found out, it is.
            if let (true, true, OpK::Add { key, int, mode }) = (KQ, nested(h, x), &o.kind) {
                if int & I_R != 0 && int & I_W != 0 {
                    out.push(Arm {
                        op: i,
                        s: x,
                        inc: o.inc,
                        key: *key,
                        xk: xkey(*key, 1),
                        int: I_R,
                        mode: *mode,
                        from: o.call,
                        sure: PENDING,
                        pend: o.call,
                        dend: o.ret,
                    });
                }
            }
            continue;
        }
        let (key, int, mode) = match o.kind {
            OpK::Add { key, int, mode } | OpK::Mod { key, int, mode } => (key, int, mode),
            _ => continue,
        };
        let xk = xkey(key, 0);
        let mut a =
            Arm { op: i, s: x, inc: o.inc, key, xk, int, mode, from: o.call, sure: o.ret, pend: u64::MAX, dend: u64::MAX };
        for &j in list {
            let q = &h.ops[j];
            if j == i || q.inc != o.inc || !effective(q) || q.ret < o.call {
                continue;
            }
            a.pend = a.pend.min(q.call);
            if q.call > o.ret {
                a.dend = a.dend.min(q.ret);
            } else if !PORT && matches!((&o.kind, &q.kind), (OpK::Mod { .. }, OpK::Del)) && o.ok() && q.ok() {
                // They overlap: the modification came first, unless the source was added anew between them.
                let anew = list.iter().map(|&k| &h.ops[k]).any(|r| {
                    matches!(r.kind, OpK::Add { .. }) && r.inc == o.inc && effective(r) && r.call < o.ret && r.ret > q.call
                });
                if !anew {
                    a.dend = a.dend.min(q.ret);
                }
            }
        }
        let c = h.srcs[x].incs[o.inc].closed;
        a.pend = a.pend.min(c);
        a.dend = a.dend.min(c);
        if !KQ {
            out.push(a);
            continue;
        }
        for (half, bit) in [(1, I_R), (2, I_W)] {
            if int & bit != 0 {
                out.push(Arm { xk: xkey(key, half), int: bit, ..a.clone() });
            }
        }
    }
    out
}

fn arms(h: &Hist, p: usize) -> Vec<Arm> {
    (0..h.srcs.len()).flat_map(|x| arms_of(h, p, x)).collect()
}

/// Bits an interest demands to be woken by.
fn demand(int: u8) -> u32 {
    let mut d = 0;
    if int & I_R != 0 {
        d |= IN | HUP | ERR;
    }
    if int & I_W != 0 {
        d |= OUT | HUP | ERR;
    }
    if int & I_PRI != 0 {
        d |= PRI;
    }
    if int & I_HUP != 0 {
        d |= HUP;
    }
    d
}

/// Bits an interest allows to be reported.
fn allowed(int: u8) -> u32 {
    let mut d = HUP | ERR;
    if int & I_R != 0 {
        d |= IN | PRI;
    }
    if int & I_W != 0 {
        d |= OUT;
    }
    if int & I_PRI != 0 {
        d |= PRI;
    }
    d
}

/// Masks the source had at some instant of `[lo, hi]`.
fn masks(h: &Hist, x: usize, inc: usize, lo: u64, hi: u64) -> Vec<u32> {
    let line = &h.srcs[x].incs[inc].line;
    let mut v = Vec::new();
    for (i, &(q, m)) in line.iter().enumerate() {
        let end = line.get(i + 1).map_or(u64::MAX, |y| y.0);
        if q <= hi && end > lo {
            v.push(m);
        }
    }
    v
}

#[derive(PartialEq, Clone, Copy)]
enum Match {
    Yes,
    /// The condition held but the flags misreport it.
    Flags,
    No,
}

fn explains(int: u8, mask: u32, e: &crate::exec::Ev) -> Match {
    if KQ {
        if mask & demand(int) == 0 {
            return Match::No;
        }
        let eof = mask & (RDHUP | HUP) != 0;
        let ok = if int == I_R { e.r && e.w == eof } else { e.w && !e.r };
        return if ok && !e.pri && !e.hup && e.err.is_none() { Match::Yes } else { Match::Flags };
    }
    let d = mask & allowed(int);
    if d == 0 {
        return Match::No;
    }
    let r_any = d & (IN | PRI | HUP | ERR) != 0;
    let w_any = d & (OUT | HUP | ERR) != 0;
    let r_must = int & I_R != 0 && d & (IN | HUP | ERR) != 0;
    let w_must = int & I_W != 0 && d & (OUT | HUP | ERR) != 0;
    let ok = (!e.r || r_any)
        && (!e.w || w_any)
        && (e.r || !r_must)
        && (e.w || !w_must)
        && e.hup == (d & HUP != 0)
        && e.pri == (d & PRI != 0)
        && e.err.map_or(true, |x| x == (d & ERR != 0));
    if ok {
        Match::Yes
    } else {
        Match::Flags
    }
}

fn nested(h: &Hist, x: usize) -> bool {
    matches!(h.srcs[x].kind, SrcKind::Nested(_))
}

fn filter(h: &Hist, x: usize) -> bool {
    KQ && h.srcs[x].kind.filter()
}

/// What can be reported once per call at most.
fn slot(a: &Arm) -> usize {
    if KQ {
        a.s * 2 + (a.xk >> 64 == 2) as usize
    } else {
        a.s
    }
}

fn is_oneshot(mode: u8) -> bool {
    mode == ONESHOT || mode == EDGE_ONESHOT
}

/// The signals and process events of `[lo, hi]` a filter reports.
fn filter_acts(h: &Hist, a: &Arm, lo: u64, hi: u64) -> Vec<u64> {
    let bits = match h.srcs[a.s].kind {
        SrcKind::Sig(_) => 1,
        _ => [crate::kq::NOTE_EXIT, crate::kq::NOTE_FORK, crate::kq::NOTE_EXEC][s().w.sc.srcs[a.s].init as usize],
    };
    let r = &h.srcs[a.s].incs[a.inc].rises;
    r.iter().filter(|r| r.1 & bits != 0 && r.0 >= lo && r.0 <= hi).map(|r| r.0).collect()
}

fn timer_period(h: &Hist, a: &Arm) -> Option<u64> {
    match h.srcs[a.s].kind {
        SrcKind::Timer(ms) => Some(timer_timeout(ms, a.key).as_nanos() as u64),
        _ => None,
    }
}

/// What a filter had to report was there before the wait ended. A modification keeps what has not been collected yet, of
/// signals and processes; a timer starts anew.
fn filter_truth(h: &Hist, p: usize, a: &Arm, w: &Op) -> bool {
    if let Some(t) = timer_period(h, a) {
        return w.t_ret >= h.ops[a.op].t_call.saturating_add(t);
    }
    let lo = match h.ops[a.op].kind {
        OpK::Add { .. } => a.from,
        _ => h.chg[p][a.s]
            .iter()
            .map(|&j| &h.ops[j])
            .filter(|q| matches!(q.kind, OpK::Add { .. }) && (q.res.is_none() || q.ok()) && q.ret < a.from)
            .map(|q| q.call)
            .max()
            .unwrap_or(0),
    };
    !filter_acts(h, a, lo, w.ret).is_empty()
}

/// The registration is in force at `upto` (`now`) and has something to report that no wait but `w` can have reported.
fn filter_owed(h: &Hist, p: usize, a: &Arm, w: usize, upto: u64, now: u64) -> bool {
    if a.sure >= upto || a.pend <= upto {
        return false;
    }
    let once = h.chg[p][a.s].iter().any(|&j| matches!(h.ops[j].kind, OpK::Add { mode, .. } | OpK::Mod { mode, .. } if is_oneshot(mode)));
    // Since when, in steps or time, a report would have been the one that is owed.
    let (mut since, mut since_t) = (a.from, 0);
    if let Some(t) = timer_period(h, a) {
        let o = &h.ops[a.op];
        let k = now.saturating_sub(o.t_ret + 1) / t;
        if k == 0 {
            return false;
        }
        if !once {
            since_t = o.t_call + k * t;
        }
    } else {
        let Some(&q) = filter_acts(h, a, a.sure, upto).last() else { return false };
        // What exits is reported together with what came before, and is not watched any longer.
        let exits = h.srcs[a.s].incs[a.inc].rises.iter().any(|r| r.1 == crate::kq::NOTE_EXIT);
        if !once && !exits {
            since = q;
        }
    }
    for &j in h.waits[p].iter().rev() {
        let v = &h.ops[j];
        if j == w || v.loser {
            continue;
        }
        if v.ret == PENDING {
            if !v.in_kernel {
                return false;
            }
            continue;
        }
        if v.ret >= since && v.t_ret >= since_t && v.evs.iter().any(|e| e.xk == a.xk) {
            return false;
        }
    }
    true
}

/// The wait had the poller to itself at some instant, so it was not turned away.
fn surely_active(h: &Hist, i: usize) -> bool {
    let o = &h.ops[i];
    if o.kwaits > 0 {
        return true;
    }
    !h.waits[o.p].iter().any(|&j| j != i && h.ops[j].call < o.ret && h.ops[j].ret > o.call)
}

/// Another wait was asleep in the kernel from before this one's call until after its return.
pub fn definite_loser(h: &Hist, i: usize) -> bool {
    h.ops[i].loser
}

fn is_loser_now(h: &Hist, i: usize) -> bool {
    let o = &h.ops[i];
    h.waits[o.p].iter().any(|&j| j != i && h.ops[j].in_kernel && h.ops[j].first_block < o.call && h.ops[j].ret == PENDING)
}

/// Nothing can have taken the report this registration owes (`w`: the wait being judged, which does not count).
fn live(h: &Hist, p: usize, a: &Arm, w: usize, upto: u64) -> bool {
    if a.mode == LEVEL {
        return true;
    }
    let since = if a.mode == EDGE && !nested(h, a.s) {
        let inc = &h.srcs[a.s].incs[a.inc];
        let d = demand(a.int);
        inc.rises.iter().rev().find(|r| r.0 < upto && r.1 & d != 0).map_or(a.from, |r| r.0.max(a.from))
    } else {
        a.from
    };
    for &j in h.waits[p].iter().rev() {
        let v = &h.ops[j];
        if j == w || v.loser {
            continue;
        }
        if v.ret == PENDING {
            if !v.in_kernel {
                return false;
            }
            continue;
        }
        if v.ret >= since && v.evs.iter().any(|e| e.xk == a.xk) {
            return false;
        }
    }
    true
}

// ---------------------------------------------------------------- attribution

/// Properties that say "and this also under ..." and whose circumstance is present.
fn circumstances(h: &Hist, p: usize, w: Option<usize>, src: Option<usize>) -> Vec<&'static str> {
    let mut v = Vec::new();
    if let Some(w) = w {
        if h.ops[w].intr > 0 {
            v.push("C12");
        }
    }
    if s().w.sc.degrade != Degrade::default() {
        v.push("C13");
    }
    let ops = &h.ops;
    if ops.iter().any(|o| o.p == p && o.fault != 0) {
        v.push("C18");
    }
    if h.waits[p].iter().any(|&j| ops[j].loser) {
        v.push("C11");
    }
    if let Some(x) = src {
        if ops.iter().any(|o| o.p != p && o.s == x) {
            v.push("C15");
        }
        if nested(h, x) {
            v.push("C19");
        }
        if ops.iter().any(|o| o.p == p && o.kind == OpK::Del && o.ok()) {
            v.push("C20");
        }
        if h.waits[p].iter().any(|&j| matches!(ops[j].kind, OpK::Wait { cap, .. } if ops[j].evs.len() + 2 >= cap)) {
            v.push("C16");
        }
    }
    v
}

fn readiness_props(h: &Hist, p: usize, w: Option<usize>, a: &Arm, mask: u32) -> Vec<&'static str> {
    let mut v = circumstances(h, p, w, Some(a.s));
    v.push(match a.mode {
        LEVEL => "C07",
        EDGE | EDGE_ONESHOT => "C08",
        _ => "C04",
    });
    v.push("C04");
    if a.mode == ONESHOT || a.mode == EDGE_ONESHOT {
        // Re-arming must make it reportable again.
        if h.waits[p].iter().any(|&j| h.ops[j].ret < a.from && arms_of(h, p, a.s).iter().any(|b| h.ops[j].evs.iter().any(|e| e.key == b.key))) {
            v.push("C06");
        }
    }
    if let Some(w) = w {
        if h.ops[w].first_block < a.from || h.ops.iter().any(|o| o.p == p && !o.is_wait() && o.call > h.ops[w].first_block) {
            v.push("C10");
        }
    }
    let d = mask & demand(a.int);
    if d & (IN | OUT) == 0 {
        v.push("C17");
    }
    if h.chg[p][a.s].len() > 1 {
        v.push("C09");
    }
    v
}

fn arm_text(h: &Hist, a: &Arm) -> String {
    h.ops[a.op].text()
}

// ---------------------------------------------------------------- matching

/// Maximum bipartite matching; `adj[i]` = slots item `i` may take. Returns the unmatched items.
fn unmatched(adj: &[Vec<usize>], slots: usize) -> Vec<usize> {
    let mut owner = vec![usize::MAX; slots];
    fn try_one(i: usize, adj: &[Vec<usize>], owner: &mut [usize], seen: &mut [bool]) -> bool {
        if let Some(&t) = adj[i].iter().find(|&&t| owner[t] == usize::MAX) {
            owner[t] = i;
            return true;
        }
        for &t in &adj[i] {
            if !seen[t] {
                seen[t] = true;
                if try_one(owner[t], adj, owner, seen) {
                    owner[t] = i;
                    return true;
                }
            }
        }
        false
    }
    let mut bad = Vec::new();
    for i in 0..adj.len() {
        let mut seen = vec![false; slots];
        if !try_one(i, adj, &mut owner, &mut seen) {
            bad.push(i);
        }
    }
    bad
}

// ---------------------------------------------------------------- at every return

pub fn on_return(i: usize) -> Option<Viol> {
    let loser = {
        let h = &s().w.hist;
        h.ops[i].is_wait() && is_loser_now(h, i)
    };
    s().w.hist.ops[i].loser = loser;
    let h = &s().w.hist;
    let o = &h.ops[i];
    match &o.kind {
        OpK::Wait { .. } => wait_return(h, i),
        OpK::Notify => {
            let refused = PORT && o.fault != 0;
            if !o.ok() && !refused {
                let mut v = circumstances(h, o.p, None, None);
                v.extend(["C18", "C01"]);
                return Some(Viol::of("notify_error", v, format!("notify failed: {}", o.text())));
            }
            if o.ok() && refused {
                return Some(Viol::of("error_swallowed", vec!["C18", "C01"], format!("the notification was refused: {}", o.text())));
            }
            None
        }
        OpK::Add { mode, .. } | OpK::Mod { mode, .. } => {
            let supported = match *mode {
                LEVEL => s().w.pollers[o.p].level,
                EDGE | EDGE_ONESHOT => s().w.pollers[o.p].edge,
                _ => true,
            };
            let unsupported_err = matches!(o.res, Some(R::Err(std::io::ErrorKind::Unsupported, _)));
            if !supported && o.ok() {
                return Some(Viol::of(
                    "unsupported_mode_accepted",
                    vec!["C08", "C18"],
                    format!("a mode reported as unsupported was accepted: {}", o.text()),
                ));
            }
            if supported && unsupported_err {
                return Some(Viol::of(
                    "supported_mode_refused",
                    vec!["C08", "C09", "C18"],
                    format!("a mode reported as supported was refused: {}", o.text()),
                ));
            }
            None
        }
        _ => None,
    }
}

fn wait_return(h: &Hist, i: usize) -> Option<Viol> {
    let o = &h.ops[i];
    let OpK::Wait { to, cap } = o.kind else { return None };
    let p = o.p;

    // Errors: only what the kernel really refused.
    if let Some(R::Err(k, e)) = o.res {
        if o.fault != 0 && e == Some(o.fault) {
            return None;
        }
        let mut v = circumstances(h, p, Some(i), None);
        v.push("C18");
        if k == std::io::ErrorKind::Interrupted {
            v.push("C12");
        }
        return Some(Viol::of("wait_error", v, format!("wait failed although no call of it was refused: {}", o.text())));
    }

    if o.loser {
        if !o.evs.is_empty() {
            return Some(Viol::of(
                "overlapping_wait_took_events",
                vec!["C11"],
                format!("a wait called while another was asleep in the kernel returned events: {}", o.text()),
            ));
        }
        if o.blocks > 0 {
            return Some(Viol::of(
                "overlapping_wait_blocked",
                vec!["C11"],
                format!("a wait called while another was asleep in the kernel slept itself: {}", o.text()),
            ));
        }
        return None;
    }

    // Time.
    if let Some(t) = to {
        let lim = t.as_nanos();
        if o.sleep as u128 > lim + SLACK as u128 {
            return Some(too_long(h, i));
        }
        if t.is_zero() && o.blocks > 0 {
            let mut v = circumstances(h, p, Some(i), None);
            v.push("C03");
            return Some(Viol::of("zero_timeout_slept", v, format!("a wait with a zero timeout slept: {}", o.text())));
        }
    }
    if let Some(v) = spin(h, i) {
        return Some(v);
    }

    if !o.evs.is_empty() {
        if let Some(v) = truth(h, i) {
            return Some(v);
        }
        if let Some(v) = once(h, i) {
            return Some(v);
        }
    }
    if !surely_active(h, i) {
        return None;
    }

    // Empty before the timeout: a notification must explain it.
    let elapsed = (o.t_ret - o.t_call) as u128;
    if o.evs.is_empty() && to.map_or(true, |t| elapsed < t.as_nanos()) {
        if let Some(v) = early(h, i) {
            return Some(v);
        }
    }

    // Everything that was armed and ready throughout must be in the buffer, but for what of the library's own may have
    // taken its place: notifications, and the end of the timeout.
    let own = if PORT {
        h.notifies[p].iter().filter(|&&j| h.ops[j].call < o.ret).count()
    } else {
        maybe_notified(h, i) as usize + to.map_or(false, |t| !t.is_zero() && elapsed >= t.as_nanos()) as usize
    };
    if o.evs.len() + own < cap {
        let excused = o.evs.is_empty() && maybe_notified(h, i);
        if !excused {
            for a in arms(h, p) {
                if filter(h, a.s) {
                    if o.evs.is_empty() && a.pend >= o.ret && filter_owed(h, p, &a, i, o.call, o.t_call) {
                        return Some(filter_lost(h, p, &a, i));
                    }
                    continue;
                }
                if a.sure > o.call || a.pend < o.ret || nested(h, a.s) {
                    continue;
                }
                // With other events in the buffer only level interest has to be there as well.
                if !o.evs.is_empty() && a.mode != LEVEL {
                    continue;
                }
                let d = demand(a.int);
                let ms = masks(h, a.s, a.inc, o.call, o.ret);
                if d == 0 || ms.iter().any(|m| m & d == 0) {
                    continue;
                }
                if o.evs.iter().any(|e| e.xk == a.xk) || !live(h, p, &a, i, o.call) {
                    continue;
                }
                let mut v = readiness_props(h, p, Some(i), &a, ms[0]);
                if !o.evs.is_empty() {
                    v.retain(|x| *x != "C04");
                }
                return Some(Viol::of(
                    "ready_source_not_reported",
                    v,
                    format!(
                        "source s{} was armed ({}) and ready (mask {:#x}) during the whole of {} but was not reported",
                        a.s,
                        arm_text(h, &a),
                        ms[0],
                        o.text()
                    ),
                ));
            }
        }
    }
    None
}

fn filter_lost(h: &Hist, p: usize, a: &Arm, w: usize) -> Viol {
    let mut v = circumstances(h, p, Some(w), Some(a.s));
    v.push("C04");
    Viol::of("filter_event_lost", v, format!("{:?} s{}, registered by {}, has something to report, but not to {}", h.srcs[a.s].kind, a.s, arm_text(h, a), h.ops[w].text()))
}

fn too_long(h: &Hist, i: usize) -> Viol {
    let o = &h.ops[i];
    let mut v = circumstances(h, o.p, Some(i), None);
    v.push("C03");
    Viol::of("slept_past_timeout", v, format!("a wait slept longer than its timeout: {} (asleep for {} ns)", o.text(), o.sleep))
}

/// Number of kernel waits, and of naps between them, against the number of causes.
fn spin(h: &Hist, i: usize) -> Option<Viol> {
    let o = &h.ops[i];
    let OpK::Wait { to, .. } = o.kind else { return None };
    let rounds = o.kwaits + o.naps;
    if rounds <= 5 {
        return None;
    }
    let hi = o.ret;
    let mut causes = (o.intr + o.late) as u64;
    for q in &h.ops {
        if q.p == o.p && !q.is_wait() && q.call <= hi && q.ret >= o.call {
            causes += 1;
        }
    }
    for x in &h.srcs {
        for c in &x.incs {
            causes += c.acts.iter().filter(|&&q| q >= o.call && q <= hi).count() as u64;
        }
    }
    let long = to.map_or(0, |t| (t.as_secs() / 2_000_000).min(1 << 30)).min((s().now - o.t_call) / 2_000_000_000_000_000 + 1);
    if rounds as u64 > 5 + 4 * causes + 2 * long {
        let mut v = circumstances(h, o.p, Some(i), None);
        v.push("C21");
        return Some(Viol::of(
            "spinning",
            v,
            format!("a wait looked again {} times (in the kernel {}) with only {} causes: {}", rounds, o.kwaits, causes, o.text()),
        ));
    }
    None
}

/// Every event is the truth about one armed source.
fn truth(h: &Hist, i: usize) -> Option<Viol> {
    let o = &h.ops[i];
    let all = arms(h, o.p);
    let ns = h.srcs.len();
    let mut adj = Vec::new();
    for e in &o.evs {
        let cand: Vec<&Arm> =
            all.iter().filter(|a| a.xk == e.xk && a.from <= o.ret && a.dend >= o.call).collect();
        if cand.is_empty() {
            let mut v = vec!["C05"];
            let mut why = "no registration of this poller ever had this key".to_string();
            if let Some(a) = all.iter().rev().find(|a| a.key == e.key) {
                v.push("C20");
                why = format!("the registration with this key was gone before the wait began: {}", arm_text(h, a));
                if a.mode == LEVEL {
                    v.push("C07");
                }
                if h.ops.iter().any(|q| q.p == o.p && q.s == a.s && q.kind == OpK::Del && q.ok()) {
                    v.push("C09");
                }
            } else {
                for q in 0..s().w.pollers.len() {
                    if q != o.p && arms(h, q).iter().any(|a| a.key == e.key) {
                        v.push("C15");
                        why = format!("this key belongs to a registration of poller p{}", q);
                    }
                }
                for q in &h.ops {
                    if let OpK::Add { key, .. } | OpK::Mod { key, .. } = q.kind {
                        if q.p == o.p && key == e.key && !q.ok() {
                            v.extend(["C09", "C18"]);
                            if matches!(q.res, Some(R::Err(std::io::ErrorKind::Unsupported, _))) {
                                v.push("C08");
                            }
                            why = format!("this key was only given in a call that failed: {}", q.text());
                        }
                    }
                }
            }
            v.extend(circumstances(h, o.p, Some(i), None).into_iter().filter(|x| *x != "C11"));
            return Some(Viol::of("event_of_no_registration", v, format!("event with key {}: {}; {}", e.key, why, o.text())));
        }
        let mut slots = Vec::new();
        let mut near: Option<&Arm> = None;
        for a in &cand {
            if nested(h, a.s) {
                slots.push(slot(a));
                continue;
            }
            if filter(h, a.s) {
                if e.r && !e.w && !e.pri && !e.hup && e.err.is_none() {
                    if filter_truth(h, o.p, a, o) {
                        slots.push(slot(a));
                    }
                } else {
                    near = Some(a);
                }
                continue;
            }
            // kqueue and event ports look at one-shot registrations when the source changes, not when they report them.
            let lo = if (KQ || PORT) && is_oneshot(a.mode) { a.from } else { a.from.max(o.call) };
            let hi = a.dend.min(o.ret);
            let mut m = Match::No;
            for x in masks(h, a.s, a.inc, lo, hi) {
                match explains(a.int, x, e) {
                    Match::Yes => {
                        m = Match::Yes;
                        break;
                    }
                    Match::Flags => m = Match::Flags,
                    Match::No => {}
                }
            }
            if m == Match::Yes {
                slots.push(slot(a));
            } else if m == Match::Flags {
                near = Some(a);
            }
        }
        if slots.is_empty() {
            let (rule, mut v, a) = match near {
                // What was asked for and held is not what the event says: that readiness is lost too.
                Some(a) => ("event_flags_wrong", vec!["C04", "C05", "C17"], a),
                None => ("event_without_condition", vec!["C05", "C17"], cand[0]),
            };
            match a.mode {
                LEVEL if near.is_none() => v.push("C07"),
                EDGE | EDGE_ONESHOT if near.is_none() => v.push("C08"),
                _ => {}
            }
            if h.srcs[a.s].incs.len() > 1 || h.chg[o.p][a.s].len() > 1 {
                // An earlier registration shows, or a mixture of several.
                v.extend(["C09", "C20"]);
            }
            if h.chg[o.p][a.s].iter().any(|&j| h.ops[j].call > o.call && h.ops[j].call < o.ret) {
                v.push("C10");
            }
            v.extend(circumstances(h, o.p, Some(i), None).into_iter().filter(|x| *x != "C11"));
            let (lo, hi) = (a.from.max(o.call), a.dend.min(o.ret));
            return Some(Viol::of(
                rule,
                v,
                format!(
                    "event {:?} does not match source s{}, whose conditions then were {:x?}, registered by {}; {}",
                    e,
                    a.s,
                    masks(h, a.s, a.inc, lo, hi),
                    arm_text(h, a),
                    o.text()
                ),
            ));
        }
        adj.push(slots);
    }
    if let Some(&b) = unmatched(&adj, ns * 2).first() {
        let k = o.evs[b].key;
        let mut v = vec!["C05"];
        if all.iter().any(|a| a.key == k && (a.mode == ONESHOT || a.mode == EDGE_ONESHOT)) {
            v.push("C06");
        }
        return Some(Viol::of("event_duplicated", v, format!("one wait reported a source more than once: {}", o.text())));
    }
    None
}

/// One-shot registrations report once; edge registrations once per activity.
fn once(h: &Hist, i: usize) -> Option<Viol> {
    let o = &h.ops[i];
    let p = o.p;
    let mut all: Option<Vec<Arm>> = None;
    for e in &o.evs {
        let evs: Vec<usize> = h.waits[p]
            .iter()
            .flat_map(|&j| h.ops[j].evs.iter().filter(|x| x.xk == e.xk).map(move |_| j))
            .collect();
        if evs.len() < 2 {
            continue;
        }
        let all = all.get_or_insert_with(|| arms(h, p));
        let mine: Vec<&Arm> = all.iter().filter(|a| a.xk == e.xk).collect();
        let unlimited =
            |a: &Arm| !(matches!(a.mode, ONESHOT | EDGE_ONESHOT) || a.mode == EDGE && !nested(h, a.s) || filter(h, a.s));
        // Reports that a registration without a limit explains take nothing from the others.
        let total = evs.len();
        let evs: Vec<usize> = evs
            .into_iter()
            .filter(|&j| {
                let w = &h.ops[j];
                !mine.iter().any(|a| unlimited(a) && a.from <= w.ret && a.dend >= w.call)
            })
            .collect();
        let mut slots: Vec<usize> = Vec::new(); // arm index per slot
        for (n, a) in mine.iter().enumerate() {
            if unlimited(a) {
                continue;
            }
            let cap = if filter(h, a.s) {
                if all.iter().filter(|b| b.s == a.s).all(|b| is_oneshot(b.mode)) {
                    1
                } else if let Some(t) = timer_period(h, a) {
                    (o.t_ret.saturating_sub(h.ops[a.op].t_call) / t) as usize
                } else {
                    filter_acts(h, a, 0, o.ret).len()
                }
            } else if a.mode == EDGE {
                1 + h.srcs[a.s].incs[a.inc].acts.iter().filter(|&&q| q >= a.from && q <= o.ret).count()
            } else {
                1
            };
            for _ in 0..cap.min(evs.len()) {
                slots.push(n);
            }
        }
        let adj: Vec<Vec<usize>> = evs
            .iter()
            .map(|&j| {
                let w = &h.ops[j];
                (0..slots.len())
                    .filter(|&t| {
                        let a = mine[slots[t]];
                        a.from <= w.ret && a.dend >= w.call
                    })
                    .collect()
            })
            .collect();
        if !unmatched(&adj, slots.len()).is_empty() {
            let a = mine.iter().filter(|a| a.from <= o.ret && a.dend >= o.call).last().unwrap_or(&mine[0]);
            let mut v = circumstances(h, p, Some(i), None);
            v.push(if a.mode == EDGE { "C08" } else { "C06" });
            if a.mode == EDGE_ONESHOT {
                v.push("C08");
            }
            if h.ops.iter().any(|q| q.p != p && q.s == a.s) {
                v.push("C15");
            }
            if h.srcs[a.s].kind == SrcKind::Sock && a.mode != EDGE {
                v.push("C21");
            }
            let n = total;
            return Some(Viol::of(
                if a.mode == EDGE { "edge_without_activity" } else { "oneshot_reported_again" },
                v,
                format!("key {} was reported {} times, more than its arming allows: {}; last: {}", e.key, n, arm_text(h, a), o.text()),
            ));
        }
    }
    None
}

/// A wait that ended had room for all notifications sent before: on kqueue one takes a place in the buffer, on event ports
/// each of them does.
fn had_room(h: &Hist, o: &Op) -> bool {
    let OpK::Wait { cap, .. } = o.kind else { return false };
    let sent = if PORT {
        h.notifies[o.p].iter().filter(|&&j| h.ops[j].call < o.ret).count()
    } else {
        KQ as usize
    };
    !(KQ || PORT) || o.evs.len() + sent <= cap
}

/// Early empty returns against notifications, one each.
fn early(h: &Hist, i: usize) -> Option<Viol> {
    let o = &h.ops[i];
    let p = o.p;
    let lo = h.waits[p]
        .iter()
        .filter(|&&j| j != i && h.ops[j].ret < o.call && h.ops[j].ok() && !h.ops[j].loser && surely_active(h, j) && had_room(h, &h.ops[j]))
        .map(|&j| h.ops[j].call)
        .max()
        .unwrap_or(0);
    s().w.early.push((i, p, lo, o.ret));
    let mine: Vec<&(usize, usize, u64, u64)> = s().w.early.iter().filter(|e| e.1 == p).collect();
    let ns = &h.notifies[p];
    let adj: Vec<Vec<usize>> = mine
        .iter()
        .map(|e| (0..ns.len()).filter(|&t| h.ops[ns[t]].ret >= e.2 && h.ops[ns[t]].call <= e.3).collect())
        .collect();
    if unmatched(&adj, ns.len()).is_empty() {
        return None;
    }
    let mut v = circumstances(h, p, Some(i), None);
    v.retain(|x| *x != "C11");
    v.push("C02");
    if h.ops.iter().any(|q| q.kind == OpK::Notify && q.p != p && q.ret >= lo && q.call <= o.ret) {
        v.push("C15");
    }
    // A wait that keeps returning with nothing to report makes its caller spin.
    v.push("C21");
    let n = adj.last().map_or(0, |a| a.len());
    Some(Viol::of(
        "empty_early",
        v,
        format!(
            "a wait returned empty {} ns after its call, before its timeout, and {} explains it: {}",
            o.t_ret - o.t_call,
            if n == 0 { "no notification" } else { "no notification left (each excuses one return)" },
            o.text()
        ),
    ))
}

/// Some notification may have been pending for this wait.
fn maybe_notified(h: &Hist, i: usize) -> bool {
    let o = &h.ops[i];
    h.notifies[o.p].iter().any(|&n| {
        let q = &h.ops[n];
        q.call < o.ret
            && !h.waits[o.p].iter().any(|&j| {
                j != i && h.ops[j].ok() && h.ops[j].call > q.ret && h.ops[j].ret < o.call && surely_active(h, j) && had_room(h, &h.ops[j])
            })
    })
}

// ---------------------------------------------------------------- at quiescent states

/// A notification that no wait can have answered yet (`w`: a wait that is asleep).
fn pending_notification(h: &Hist, p: usize, w: usize) -> Option<usize> {
    if h.notifies[p].iter().any(|&n| h.ops[n].ret == PENDING) {
        return None;
    }
    h.notifies[p]
        .iter()
        .rev()
        .copied()
        .find(|&n| {
            let q = &h.ops[n];
            q.ok()
                && !h.waits[p].iter().any(|&j| {
                    let v = &h.ops[j];
                    j != w
                        && !v.loser
                        && v.ret > q.call
                        && (v.ret == PENDING && !v.in_kernel || v.ret != PENDING && v.ok())
                })
        })
}

fn current_mask(h: &Hist, a: &Arm) -> u32 {
    let inc = &h.srcs[a.s].incs[a.inc];
    s().k.mask(inc.file)
}

/// A registration that is certainly in force, ready, and owes a report.
fn owed(h: &Hist, p: usize, w: usize) -> Option<(Arm, u32)> {
    for a in arms(h, p) {
        if a.sure == PENDING || a.pend != u64::MAX {
            continue;
        }
        if filter(h, a.s) {
            if filter_owed(h, p, &a, w, u64::MAX - 1, s().now) {
                return Some((a, 0));
            }
            continue;
        }
        let m = current_mask(h, &a);
        if m & demand(a.int) != 0 && live(h, p, &a, w, u64::MAX) {
            return Some((a, m));
        }
    }
    None
}

pub fn idle_check() -> Option<Viol> {
    let sim = s();
    let h = &sim.w.hist;
    let mut busy = vec![false; sim.w.pollers.len()];
    for t in 0..sim.threads.len() {
        let i = sim.threads[t].cur_op;
        if i == NO_OP {
            continue;
        }
        let o = &h.ops[i];
        busy[o.p] = true;
        let p = o.p;
        let blk = match &sim.threads[t].st {
            St::Blocked(b) => b,
            _ => continue,
        };
        if !o.is_wait() {
            // Nothing else can run, so this call waits for something only time or I/O can bring.
            let waits = h.waits[p].iter().any(|&j| h.ops[j].ret == PENDING);
            if waits {
                let mut v = vec!["C10"];
                v.extend(circumstances(h, p, None, None).into_iter().filter(|x| *x != "C11"));
                if o.kind == OpK::Notify {
                    v.push("C01");
                }
                return Some(Viol::of("call_blocked", v, format!("{} is blocked while a wait is in progress; {}", o.text(), describe_threads())));
            }
            return Some(Viol::new("deadlock", format!("{} is blocked with no wait in progress; {}", o.text(), describe_threads())));
        }
        if let Some(&j) = h.waits[p].iter().find(|&&j| j != i && h.ops[j].in_kernel && h.ops[j].first_block < o.call && h.ops[j].ret == PENDING) {
            return Some(Viol::of(
                "overlapping_wait_blocked",
                vec!["C11"],
                format!("{} is blocked although {} is already waiting", o.text(), h.ops[j].text()),
            ));
        }
        if !matches!(blk, Blk::Epoll(_) | Blk::Poll(_)) {
            if let Some(n) = pending_notification(h, p, i) {
                let mut v = circumstances(h, p, Some(i), None);
                v.push("C01");
                return Some(Viol::of("wait_stuck", v, format!("{} is blocked on something other than the kernel wait although {} is pending; {}", o.text(), h.ops[n].text(), describe_threads())));
            }
            if let OpK::Wait { to: Some(_), .. } | OpK::Wait { to: None, .. } = o.kind {
                if sim.threads[t].deadline == crate::sim::NEVER {
                    return Some(Viol::new("deadlock", format!("{} is blocked on a lock nobody will release; {}", o.text(), describe_threads())));
                }
            }
            continue;
        }
        // Asleep in the kernel.
        if let OpK::Wait { to: Some(to), .. } = o.kind {
            if o.sleep as u128 > to.as_nanos() + SLACK as u128 {
                return Some(too_long(h, i));
            }
            if to.is_zero() {
                let mut v = circumstances(h, p, Some(i), None);
                v.push("C03");
                return Some(Viol::of("zero_timeout_slept", v, format!("a wait with a zero timeout sleeps: {}", o.text())));
            }
        }
        if let Some(v) = spin(h, i) {
            return Some(v);
        }
        if let Some(n) = pending_notification(h, p, i) {
            let q = &h.ops[n];
            let mut v = circumstances(h, p, Some(i), None);
            v.push("C01");
            if q.call > o.first_block {
                v.push("C10");
            }
            if h.ops.iter().any(|x| x.kind == OpK::Notify && x.p != p) {
                v.push("C15");
            }
            return Some(Viol::of(
                "notification_lost",
                v,
                format!("{} sleeps although {} was not answered by any wait; {}", o.text(), q.text(), describe_threads()),
            ));
        }
        if let Some((a, m)) = owed(h, p, i) {
            let v = readiness_props(h, p, Some(i), &a, m);
            return Some(Viol::of(
                "readiness_lost",
                v,
                format!("{} sleeps although source s{} is armed ({}) and ready (mask {:#x}); {}", o.text(), a.s, arm_text(h, &a), m, describe_threads()),
            ));
        }
    }
    // The poller's own descriptor.
    for p in 0..sim.w.pollers.len() {
        if busy[p] || sim.w.pollers[p].h.is_none() {
            continue;
        }
        let Some(raw) = sim.w.pollers[p].raw else { continue };
        let Ok(e) = sim.k.ent(raw) else {
            return Some(Viol::of("raw_fd_closed", vec!["C19", "C14"], format!("the descriptor of live poller p{} is closed", p)));
        };
        if sim.k.mask(e.file) & IN != 0 {
            continue;
        }
        if let Some(n) = pending_notification(h, p, usize::MAX) {
            return Some(Viol::of("raw_fd_not_readable", vec!["C19"], format!("the descriptor of p{} is not readable although {} is pending", p, h.ops[n].text())));
        }
        if let Some((a, m)) = owed(h, p, usize::MAX) {
            return Some(Viol::of(
                "raw_fd_not_readable",
                vec!["C19"],
                format!("the descriptor of p{} is not readable although source s{} is armed ({}) and ready (mask {:#x})", p, a.s, arm_text(h, &a), m),
            ));
        }
    }
    None
}

/// After everything was consumed and silenced.
pub fn settled() -> Option<Viol> {
    let sim = s();
    let h = &sim.w.hist;
    for p in 0..sim.w.pollers.len() {
        if sim.w.pollers[p].h.is_none() {
            continue;
        }
        if let Some(raw) = sim.w.pollers[p].raw {
            if let Ok(e) = sim.k.ent(raw) {
                let unfinished = arms(h, p).iter().any(|a| a.pend == u64::MAX && demand(a.int) != 0);
                if !unfinished && sim.k.mask(e.file) & IN != 0 {
                    return Some(Viol::of("raw_fd_left_readable", vec!["C19"], format!("the descriptor of p{} stays readable with nothing to report", p)));
                }
            }
        }
    }
    backlog("after everything was consumed")
}

/// Wake-up data must not pile up.
pub fn backlog(when: &str) -> Option<Viol> {
    let sim = s();
    for f in sim.k.files.iter().flatten() {
        if f.owner != Owner::Lib {
            continue;
        }
        let n = match &f.kind {
            Kind::PipeR(p) => sim.k.pipes[*p].buf.len() as u64,
            Kind::EventFd { count, .. } => *count,
            _ => 0,
        };
        // Every thread may have one write in flight.
        if n > 4 + sim.threads.len() as u64 {
            return Some(Viol::of("wakeup_data_piles_up", vec!["C14", "C21"], format!("{} units of wake-up data lie in a {} of the library {}", n, kind_name(&f.kind), when)));
        }
    }
    None
}

// ---------------------------------------------------------------- creation

pub fn after_new(i: usize) -> Option<Viol> {
    let sim = s();
    let o = &sim.w.hist.ops[i];
    match &o.res {
        Some(R::Ok(_)) => {
            for (fd, kind, cx) in sim.k.lib_fds_of(o.tid, o.files_before) {
                if !cx {
                    let mut v = vec!["C14"];
                    if sim.w.sc.degrade != Degrade::default() || o.new_failed.is_some() {
                        v.push("C13");
                    }
                    return Some(Viol::of("not_close_on_exec", v, format!("descriptor {} ({}) of a new poller is not close-on-exec", fd, kind)));
                }
            }
            None
        }
        Some(R::Err(k, e)) => {
            match o.new_failed {
                None => {
                    return Some(Viol::of("creation_error_unexplained", vec!["C13", "C18"], format!("creation failed although nothing irreplaceable was refused: {}", o.text())));
                }
                Some((name, errno)) => {
                    // (With a text of its own.)
                    let esp = (ESP || HERMIT) && errno == libc::EPERM && *k == std::io::ErrorKind::PermissionDenied;
                    if *e != Some(errno) && !esp {
                        return Some(Viol::of(
                            "creation_error_wrong",
                            vec!["C13", "C18"],
                            format!("creation reported another error than {} gave ({}): {}", name, errno, o.text()),
                        ));
                    }
                    let replaceable = match name {
                        "eventfd" if ESP || HERMIT => false,
                        "eventfd" | "timerfd_create" => true,
                        // Without the flag-taking call creation may use the old one.
                        "pipe2" => true,
                        _ => false,
                    };
                    if replaceable {
                        return Some(Viol::of("creation_gave_up", vec!["C13"], format!("creation failed because {} was refused, which has a replacement: {}", name, o.text())));
                    }
                }
            }
            leaked(o.p, "after creation failed", &["C13", "C14"])
        }
        None => None,
    }
}

/// Descriptors the library created must belong to live pollers.
fn leaked(_p: usize, when: &str, props: &[&'static str]) -> Option<Viol> {
    let sim = s();
    if sim.w.pollers.iter().any(|p| p.h.is_some()) || sim.w.hist.ops.iter().any(|o| o.kind == OpK::New && o.ret == PENDING) {
        // Cannot tell whose they are; the end of the run will tell.
        return None;
    }
    let l = sim.k.lib_fds();
    if l.is_empty() {
        return None;
    }
    let l: Vec<String> = l.iter().map(|x| format!("{} ({})", x.0, x.1)).collect();
    Some(Viol::of("descriptor_leaked", props.to_vec(), format!("descriptors left open {}: {}", when, l.join(", "))))
}

// ---------------------------------------------------------------- at the end

pub fn at_end() -> Option<Viol> {
    let sim = s();
    let h = &sim.w.hist;
    // Everything ready during a drain must have come out of it.
    for &(p, a0, a1) in &h.drains {
        let ws: Vec<usize> = (a0..a1).filter(|&j| h.ops[j].is_wait() && h.ops[j].p == p).collect();
        let (Some(&f), Some(&l)) = (ws.first(), ws.last()) else { continue };
        // A wait that failed reported nothing; there may be too few others.
        if ws.iter().any(|&j| !matches!(h.ops[j].res, Some(R::Ok(_)))) {
            continue;
        }
        let (lo, hi) = (h.ops[f].call, h.ops[l].ret);
        for a in arms(h, p) {
            if a.sure > lo || a.pend < hi || nested(h, a.s) || filter(h, a.s) {
                continue;
            }
            let d = demand(a.int);
            let ms = masks(h, a.s, a.inc, lo, hi);
            if d == 0 || ms.iter().any(|m| m & d == 0) {
                continue;
            }
            if ws.iter().any(|&j| h.ops[j].evs.iter().any(|e| e.xk == a.xk)) {
                continue;
            }
            // Was the report still owed when the drain began?
            let since = if a.mode == EDGE {
                h.srcs[a.s].incs[a.inc].rises.iter().rev().find(|r| r.0 < lo && r.1 & d != 0).map_or(a.from, |r| r.0.max(a.from))
            } else {
                a.from
            };
            if a.mode != LEVEL
                && h.waits[p].iter().any(|&j| h.ops[j].ret >= since && h.ops[j].ret < lo && h.ops[j].evs.iter().any(|e| e.xk == a.xk))
            {
                continue;
            }
            let mut v = readiness_props(h, p, None, &a, ms[0]);
            v.push("C16");
            return Some(Viol::of(
                "ready_source_starved",
                v,
                format!("source s{} was armed ({}) and ready (mask {:#x}) but {} waits with a zero timeout in a row never reported it", a.s, arm_text(h, &a), ms[0], ws.len()),
            ));
        }
    }
    for p in 0..h.chg.len() {
        for x in 0..h.chg[p].len() {
            for inc in 0..h.srcs[x].incs.len() {
                if let Some(v) = table(h, p, x, inc) {
                    return Some(v);
                }
            }
        }
    }
    let mut props = vec!["C14"];
    if sim.w.sc.degrade != Degrade::default() || sim.w.sc.fail_new.is_some() || h.ops.iter().any(|o| o.new_failed.is_some()) {
        props.push("C13");
    }
    if let Some(v) = leaked(0, "after every poller was dropped", &props) {
        return Some(v);
    }
    for (x, src) in h.srcs.iter().enumerate() {
        if nested(h, x) || filter(h, x) {
            continue;
        }
        if let Some(i) = src.incs.last() {
            if i.closed == PENDING && !matches!(sim.k.ent(i.fd), Ok(e) if e.file == i.file) {
                return Some(Viol::new("bad_close", format!("the descriptor of source s{} was closed by the library", x)));
            }
        }
    }
    None
}

// ---------------------------------------------------------------- one atomic table

#[derive(Clone, Copy, PartialEq)]
enum Need {
    /// Fits any state and changes nothing.
    Any,
    /// Must have been in this state; then the state becomes the second.
    From(bool, bool),
    /// No state explains it.
    Never,
}

fn need(h: &Hist, o: &Op) -> Need {
    use std::io::ErrorKind as K;
    let file = h.srcs[o.s].kind == SrcKind::File;
    let bad_key = matches!(o.kind, OpK::Add { key: usize::MAX, .. } | OpK::Mod { key: usize::MAX, .. });
    let edge = matches!(o.kind, OpK::Add { mode: EDGE | EDGE_ONESHOT, .. } | OpK::Mod { mode: EDGE | EDGE_ONESHOT, .. });
    let level = matches!(o.kind, OpK::Add { mode: LEVEL, .. } | OpK::Mod { mode: LEVEL, .. });
    let edge_missing = edge && !s().w.pollers[o.p].edge || level && !s().w.pollers[o.p].level;
    let Some(res) = &o.res else { return Need::Any };
    match res {
        R::Ok(_) => {
            if bad_key || edge_missing {
                return Need::Never;
            }
            match o.kind {
                // Event ports keep no table: adding and modifying are the same, and anything may be deleted.
                _ if PORT => Need::Any,
                OpK::Add { .. } => Need::From(false, true),
                OpK::Mod { .. } => Need::From(true, true),
                _ => Need::From(true, false),
            }
        }
        R::Err(k, e) => {
            if bad_key {
                return if *k == K::InvalidInput { Need::Any } else { Need::Never };
            }
            if o.fault != 0 && *e == Some(o.fault) {
                return Need::Any;
            }
            if edge_missing && *k == K::Unsupported {
                return Need::Any;
            }
            if file && !POLL_BACKEND {
                // The kernel cannot poll it: refused, never registered.
                return match (&o.kind, k) {
                    (OpK::Add { .. }, K::AlreadyExists) => Need::Never,
                    _ => Need::Any,
                };
            }
            if let (true, SrcKind::Nested(_), OpK::Add { int, .. }, Some(libc::EINVAL)) = (KQ, h.srcs[o.s].kind, &o.kind, *e) {
                return if int & I_W != 0 { Need::Any } else { Need::Never };
            }
            if let (SrcKind::Proc(_), Some(libc::ESRCH), OpK::Add { .. } | OpK::Mod { .. }) = (h.srcs[o.s].kind, *e, &o.kind) {
                // It has exited.
                let gone = h.srcs[o.s].incs[o.inc].rises.iter().any(|r| r.1 == crate::kq::NOTE_EXIT && r.0 < o.ret);
                return if gone { Need::Any } else { Need::Never };
            }
            match (&o.kind, k) {
                _ if PORT => Need::Never,
                (OpK::Add { .. }, K::AlreadyExists) => Need::From(true, true),
                (OpK::Mod { .. }, K::NotFound) | (OpK::Del, K::NotFound) => Need::From(false, false),
                _ => Need::Never,
            }
        }
    }
}

fn table(h: &Hist, p: usize, x: usize, inc: usize) -> Option<Viol> {
    let ops: Vec<usize> = h.chg[p][x].iter().copied().filter(|&j| h.ops[j].inc == inc && h.ops[j].res.is_some()).collect();
    if ops.is_empty() {
        return None;
    }
    let needs: Vec<Need> = ops.iter().map(|&j| need(h, &h.ops[j])).collect();
    let attribution = |bad: &Op| {
        let mut v = vec!["C09"];
        if h.ops.iter().any(|o| o.p == p && o.fault != 0) {
            v.push("C18");
        }
        if !bad.ok() {
            v.push("C18");
        }
        if matches!(bad.kind, OpK::Add { mode: EDGE | EDGE_ONESHOT, .. } | OpK::Mod { mode: EDGE | EDGE_ONESHOT, .. }) {
            v.push("C08");
        }
        if h.ops.iter().any(|o| o.p != p && o.s == x) {
            v.push("C15");
        }
        if inc > 0 || h.ops.iter().any(|o| o.p == p && o.kind == OpK::Del && o.ok()) {
            v.push("C20");
        }
        v
    };
    if let Some(i) = needs.iter().position(|n| *n == Need::Never) {
        let o = &h.ops[ops[i]];
        let mut v = attribution(o);
        v.extend(circumstances(h, p, None, None).into_iter().filter(|x| *x == "C13"));
        return Some(Viol::of("call_result_unexplained", v, format!("no state of the registration table explains {}", o.text())));
    }
    // Search for an order (Wing and Gong) over sets of linearised operations.
    let n = ops.len();
    if n > 120 {
        return None;
    }
    let mut seen: Set<(u128, bool)> = Set::default();
    let mut stack: Vec<(u128, bool)> = vec![(0, false)];
    let full = if n == 128 { u128::MAX } else { (1u128 << n) - 1 };
    let mut best = (0u32, 0u128, false);
    while let Some((done, st)) = stack.pop() {
        if done == full {
            return None;
        }
        if !seen.insert((done, st)) {
            continue;
        }
        if done.count_ones() >= best.0 {
            best = (done.count_ones(), done, st);
        }
        let min_ret = (0..n).filter(|i| done >> i & 1 == 0).map(|i| h.ops[ops[i]].ret).min().unwrap();
        for i in 0..n {
            if done >> i & 1 == 1 || h.ops[ops[i]].call > min_ret {
                continue;
            }
            match needs[i] {
                Need::Any => stack.push((done | 1 << i, st)),
                Need::From(a, b) if a == st => stack.push((done | 1 << i, b)),
                _ => {}
            }
        }
    }
    let next = (0..n).find(|i| best.1 >> i & 1 == 0).unwrap();
    let o = &h.ops[ops[next]];
    let hist: Vec<String> = ops.iter().map(|&j| h.ops[j].text()).collect();
    Some(Viol::of(
        "calls_not_atomic",
        attribution(o),
        format!(
            "no order of the calls on source s{} of p{} explains their results; stuck at {} with the source {}; calls: {}",
            x,
            p,
            o.text(),
            if best.2 { "registered" } else { "not registered" },
            hist.join(" | ")
        ),
    ))
}
