//! What must hold, judged from the recorded history alone: at every return, at every quiescent state and at the end.
//!
//! All reasoning is by intervals: a call takes effect between its call and its return, so a registration is possibly in
//! force from its call to the return of what replaces it, and definitely from its return to the call of what replaces it.

use std::io::ErrorKind as K;

use crate::exec::{describe_threads, ev_text, Ev, Hist, Op, OpK, PENDING, R};
use crate::rng::Set;
use crate::kernel::*;
use crate::scenario::*;
use crate::sim::{fail, s, Blk, St, NO_OP};

#[derive(Clone, Debug)]
pub struct Viol {
    pub rule: &'static str,
    pub msg: String,
}

impl Viol {
    pub fn new(rule: &'static str, msg: String) -> Viol {
        Viol { rule, msg }
    }

    /// The properties this breaks; none: all of them.
    pub fn props(&self) -> &'static [&'static str] {
        match self.rule {
            "event_of_no_registration" | "event_without_condition" | "event_duplicated" | "event_count"
            | "oneshot_reported_again" | "waitable_reported_again" | "packet_reported_again" | "readiness_lost"
            | "ready_source_starved" | "packet_lost" => &["C23"],
            "notification_lost" | "empty_early" | "slept_past_timeout" | "timeout_lost" | "zero_timeout_slept"
            | "spinning" | "wait_error" | "livelock" => &["C25"],
            "call_blocked" | "deadlock" => &["C25", "C26"],
            "calls_not_atomic" | "call_result_unexplained" | "call_failed" | "creation_failed" | "edge_mode" | "supports"
            | "handles_left" | "memory_left" | "poll_left" | "wait_left" | "freed_in_flight" | "block_reused" | "bad_close" | "bad_poll"
            | "bad_wait" | "port_skipped" => &["C26"],
            _ => &[],
        }
    }

    pub fn counts_for(&self, prop: &str) -> bool {
        let p = self.props();
        self.rule != "harness" && (p.is_empty() || p.contains(&prop))
    }
}

/// Something wrong seen by the simulated kernel during a call.
pub fn note(rule: &'static str, msg: String) {
    fail(Viol::new(rule, format!("{}; {}", msg, describe_threads())))
}

/// Timeouts are rounded up to whole milliseconds.
pub const SLACK: u64 = 1_100_000;

// ---------------------------------------------------------------- registrations

#[derive(Clone, Debug)]
struct Arm {
    op: usize,
    s: usize,
    inc: usize,
    key: usize,
    int: u8,
    mode: u8,
    /// possibly in force from
    from: u64,
    /// definitely in force from (if nothing else interferes)
    sure: u64,
    /// possibly replaced from
    pend: u64,
    /// definitely replaced from
    dend: u64,
}

fn refused(o: &Op) -> bool {
    matches!(o.res, Some(R::Err(..))) && !o.fault
}

fn arms_of(h: &Hist, p: usize, x: usize) -> Vec<Arm> {
    let Some(list) = h.chg.get(p).and_then(|v| v.get(x)) else { return Vec::new() };
    let mut out = Vec::new();
    // Incarnation, call, and the latest return of the deletions up to this one.
    let mut dels: Vec<(usize, u64, u64)> = Vec::new();
    for o in list.iter().map(|&i| &h.ops[i]).filter(|o| matches!(o.kind, OpK::Del)) {
        let top = dels.last().filter(|d| d.0 == o.inc).map_or(0, |d| d.2);
        dels.push((o.inc, o.call, top.max(o.ret)));
    }
    for &i in list {
        let o = &h.ops[i];
        if refused(o) {
            continue;
        }
        let (key, int, mode) = match o.kind {
            OpK::Add { key, int, mode } | OpK::Mod { key, int, mode } => (key, int, mode),
            _ => continue,
        };
        let failed = matches!(o.res, Some(R::Err(..)));
        let mut a = Arm {
            op: i,
            s: x,
            inc: o.inc,
            key,
            int,
            mode,
            from: o.call,
            sure: if failed { PENDING } else { o.ret },
            pend: u64::MAX,
            dend: u64::MAX,
        };
        if failed && matches!(o.kind, OpK::Add { .. }) {
            // Nothing is left of it.
            a.pend = o.call;
            a.dend = o.ret;
        }
        for &j in list {
            let q = &h.ops[j];
            if j == i || q.inc != o.inc || refused(q) || q.ret < o.call {
                continue;
            }
            a.pend = a.pend.min(q.call);
            // A deletion may still be busy with it although the table has forgotten it.
            let done = match dels.partition_point(|d| d.0 == o.inc && d.1 < q.ret || d.0 < o.inc) {
                k if k > 0 && dels[k - 1].0 == o.inc => q.ret.max(dels[k - 1].2),
                _ => q.ret,
            };
            // A modification that failed may or may not have replaced it.
            if q.ok() || matches!(q.kind, OpK::Del) {
                if q.call > o.ret {
                    a.dend = a.dend.min(done);
                } else if matches!((&o.kind, &q.kind), (OpK::Mod { .. }, OpK::Del)) && q.ok() {
                    // They overlap: the modification came first, unless the source was added anew between them.
                    let anew = list.iter().map(|&k| &h.ops[k]).any(|r| {
                        matches!(r.kind, OpK::Add { .. }) && r.inc == o.inc && !refused(r) && r.call < o.ret && r.ret > q.call
                    });
                    if !anew {
                        a.dend = a.dend.min(done);
                    }
                }
            }
        }
        let c = h.srcs[x].incs[o.inc].closed;
        a.pend = a.pend.min(c);
        a.dend = a.dend.min(c);
        out.push(a);
    }
    out
}

fn arms(h: &Hist, p: usize) -> Vec<Arm> {
    (0..h.srcs.len()).flat_map(|x| arms_of(h, p, x)).collect()
}

fn arm_text(h: &Hist, a: &Arm) -> String {
    h.ops[a.op].text()
}

fn is_sock(h: &Hist, x: usize) -> bool {
    matches!(h.srcs[x].kind, Kind::Sock { .. })
}

const RD: u32 = RECEIVE | ACCEPT | DISCONNECT | EXPEDITED | ABORT | CONNECT_FAIL;
const WR: u32 = SEND | ABORT | CONNECT_FAIL;

/// Conditions an interest must be woken by.
fn demand(h: &Hist, a: &Arm) -> u32 {
    if !is_sock(h, a.s) {
        return (a.int & (I_R | I_W) != 0) as u32;
    }
    let mut d = 0;
    if a.int & I_R != 0 {
        d |= RD;
    }
    if a.int & I_W != 0 {
        d |= WR;
    }
    if a.int & I_PRI != 0 {
        d |= EXPEDITED;
    }
    if a.int & I_HUP != 0 {
        d |= ABORT;
    }
    d
}

/// Conditions the source had at some instant of `[lo, hi]`.
fn masks(h: &Hist, x: usize, inc: usize, lo: u64, hi: u64) -> Vec<u32> {
    let line = &h.srcs[x].incs[inc].line;
    let mut v = Vec::new();
    for (i, &(q, m)) in line.iter().enumerate() {
        let end = line.get(i + 1).map_or(u64::MAX, |y| y.0);
        if q <= hi && end > lo {
            v.push(m);
        }
    }
    v
}

/// The conditions that may show in a report: those held since the last report of the source certainly ended.
fn since(h: &Hist, p: usize, a: &Arm, w: usize) -> u64 {
    let o = &h.ops[w];
    h.waits[p]
        .iter()
        .filter(|&&j| j != w && h.ops[j].ret < o.call)
        .filter(|&&j| h.ops[j].call > a.sure && h.ops[j].evs.iter().any(|e| e.key == a.key))
        .map(|&j| h.ops[j].call)
        .max()
        .filter(|_| !shared(h, p, a.key))
        .unwrap_or(0)
}

fn explains(h: &Hist, p: usize, a: &Arm, w: usize, e: &Ev) -> bool {
    let o = &h.ops[w];
    let hi = o.ret.min(a.dend);
    if !is_sock(h, a.s) {
        return e.r == (a.int & I_R != 0)
            && e.w == (a.int & I_W != 0)
            && (e.r || e.w)
            && (h.srcs[a.s].incs[a.inc].signals.iter().any(|&q| q <= hi));
    }
    let held = masks(h, a.s, a.inc, since(h, p, a, w), hi).iter().fold(0, |x, y| x | y);
    (!e.r || a.int & I_R != 0 && held & RD != 0)
        && (!e.w || a.int & I_W != 0 && held & WR != 0)
        && (!e.pri || held & EXPEDITED != 0)
        && (!e.hup || held & ABORT != 0)
        && (!e.err || held & CONNECT_FAIL != 0)
        && (e.r || e.w || e.pri && a.int & I_PRI != 0 || e.hup && a.int & I_HUP != 0)
}

fn explains_post(o: &Op, e: &Ev) -> bool {
    match o.kind {
        OpK::Post { key, int } => {
            key == e.key
                && e.r == (int & I_R != 0)
                && e.w == (int & I_W != 0)
                && e.pri == (int & I_PRI != 0)
                && e.hup == (int & I_HUP != 0)
                && !e.err
        }
        _ => false,
    }
}

/// Keys that several sources or packets share: what a report belongs to is not certain.
fn shared(h: &Hist, p: usize, key: usize) -> bool {
    let mut owner: Option<(usize, usize)> = None;
    for (x, l) in h.chg.get(p).into_iter().flatten().enumerate() {
        for &j in l {
            if let OpK::Add { key: k, .. } | OpK::Mod { key: k, .. } = h.ops[j].kind {
                if k == key {
                    if owner.map_or(false, |o| o != (x, h.ops[j].inc)) {
                        return true;
                    }
                    owner = Some((x, h.ops[j].inc));
                }
            }
        }
    }
    let posts = h.posts[p].iter().filter(|&&j| matches!(h.ops[j].kind, OpK::Post { key: k, .. } if k == key)).count();
    posts > 1 || posts == 1 && owner.is_some()
}

/// Another wait was in progress during this one: it may have been turned away.
fn may_lose(h: &Hist, i: usize) -> bool {
    let o = &h.ops[i];
    o.kwaits == 0 && h.waits[o.p].iter().any(|&j| j != i && h.ops[j].call < o.ret && h.ops[j].ret > o.call)
}

// ---------------------------------------------------------------- matching

/// Maximum bipartite matching; `adj[i]` = slots item `i` may take. Returns the unmatched items.
fn unmatched(adj: &[Vec<usize>], slots: usize) -> Vec<usize> {
    let mut owner = vec![usize::MAX; slots];
    fn try_one(i: usize, adj: &[Vec<usize>], owner: &mut [usize], seen: &mut [bool]) -> bool {
        if let Some(&t) = adj[i].iter().find(|&&t| owner[t] == usize::MAX) {
            owner[t] = i;
            return true;
        }
        for &t in &adj[i] {
            if !seen[t] {
                seen[t] = true;
                if try_one(owner[t], adj, owner, seen) {
                    owner[t] = i;
                    return true;
                }
            }
        }
        false
    }
    let mut bad = Vec::new();
    for i in 0..adj.len() {
        let mut seen = vec![false; slots];
        if !try_one(i, adj, &mut owner, &mut seen) {
            bad.push(i);
        }
    }
    bad
}

// ---------------------------------------------------------------- at every return

pub fn on_return(i: usize) -> Option<Viol> {
    let h = &s().w.hist;
    let o = &h.ops[i];
    match &o.kind {
        OpK::Wait { .. } => wait_return(h, i),
        OpK::New => match o.res {
            Some(R::Err(..)) if !o.fault => {
                Some(Viol::new("creation_failed", format!("creating a poller failed although no call of it was refused: {}", o.text())))
            }
            _ => None,
        },
        OpK::Notify | OpK::Post { .. } => match o.res {
            Some(R::Err(..)) if !o.fault => {
                Some(Viol::new("call_failed", format!("failed although no call of it was refused: {}", o.text())))
            }
            _ => None,
        },
        OpK::Add { mode, .. } | OpK::Mod { mode, .. } if *mode == EDGE || *mode == EDGE_ONESHOT => match o.res {
            Some(R::Err(K::InvalidInput | K::Unsupported, None)) => None,
            _ => Some(Viol::new("edge_mode", format!("a mode reported as unsupported must be refused: {}", o.text()))),
        },
        _ => None,
    }
}

fn wait_return(h: &Hist, i: usize) -> Option<Viol> {
    let o = &h.ops[i];
    let OpK::Wait { to, .. } = o.kind else { return None };
    if let Some(R::Err(..)) = o.res {
        if !o.fault {
            return Some(Viol::new("wait_error", format!("wait failed although no call of it was refused: {}", o.text())));
        }
        return None;
    }
    if let Some(v) = spin(h, i) {
        return Some(v);
    }
    if let Some(t) = to {
        if o.sleep as u128 > t.as_nanos() + SLACK as u128 {
            return Some(too_long(h, i));
        }
        if t.is_zero() && o.blocks > 0 {
            return Some(Viol::new("zero_timeout_slept", format!("a wait with a zero timeout slept: {}", o.text())));
        }
    }
    if !o.evs.is_empty() {
        if let Some(v) = truth(h, i).or_else(|| once(h, i)) {
            return Some(v);
        }
        return None;
    }
    let elapsed = (o.t_ret - o.t_call) as u128;
    if to.map_or(true, |t| elapsed < t.as_nanos()) && !may_lose(h, i) {
        return early(h, i);
    }
    None
}

fn too_long(h: &Hist, i: usize) -> Viol {
    let o = &h.ops[i];
    Viol::new("slept_past_timeout", format!("a wait slept longer than its timeout: {} (asleep for {} ns)", o.text(), o.sleep))
}

fn spin(h: &Hist, i: usize) -> Option<Viol> {
    let o = &h.ops[i];
    let OpK::Wait { to, .. } = o.kind else { return None };
    if o.kwaits <= 8 {
        return None;
    }
    // Causes from outside; every source may have packets of cancelled polls on their way.
    let mut causes = h.srcs.len() as u64 + 1;
    for q in &h.ops {
        if q.p == o.p && !q.is_wait() && q.call <= o.ret && q.ret >= o.call {
            causes += 1;
        }
    }
    for x in &h.srcs {
        for c in &x.incs {
            causes += c.line.iter().filter(|l| l.0 >= o.call && l.0 <= o.ret).count() as u64;
        }
    }
    // A wait ends early now and then; the longest timeouts take several.
    let faults = s().stats.get("fault_timer_early");
    let long = to.map_or(0, |t| (t.as_secs() / 2_000_000).min(1 << 30)).min((s().now - o.t_call) / 2_000_000_000_000_000 + 1);
    if o.kwaits as u64 > 8 + 4 * causes + 2 * long + 2 * faults {
        return Some(Viol::new(
            "spinning",
            format!("a wait entered the kernel {} times with only {} causes: {}", o.kwaits, causes, o.text()),
        ));
    }
    None
}

/// Every event is the truth about one source or one posted packet.
fn truth(h: &Hist, i: usize) -> Option<Viol> {
    let o = &h.ops[i];
    let p = o.p;
    let all = arms(h, p);
    // Slots: each source once; each packet once.
    let ns = h.srcs.len();
    let posts: Vec<usize> = h.posts[p].iter().copied().filter(|&j| h.ops[j].call <= o.ret).collect();
    let mut adj = Vec::new();
    for e in &o.evs {
        let mut slots: Vec<usize> = (0..posts.len()).filter(|&t| explains_post(&h.ops[posts[t]], e)).map(|t| ns + t).collect();
        let cand: Vec<&Arm> = all.iter().filter(|a| a.key == e.key && a.from <= o.ret && a.dend >= o.call).collect();
        for a in &cand {
            if explains(h, p, a, i, e) {
                slots.push(a.s);
                // While a deletion is in progress the source may already have been added anew.
                let anew = h.chg[p][a.s].iter().map(|&j| &h.ops[j]).any(|q| {
                    matches!(q.kind, OpK::Del) && q.inc == a.inc && q.ret >= o.call && q.call <= o.ret
                });
                if anew {
                    slots.push(ns + posts.len() + a.op);
                }
            }
        }
        slots.sort();
        slots.dedup();
        if slots.is_empty() {
            if let Some(a) = cand.first() {
                return Some(Viol::new(
                    "event_without_condition",
                    format!(
                        "event {} does not match source s{}, whose conditions since it was last reported were {:x?}, registered by {}; {}",
                        ev_text(e),
                        a.s,
                        masks(h, a.s, a.inc, since(h, p, a, i), o.ret.min(a.dend)),
                        arm_text(h, a),
                        o.text()
                    ),
                ));
            }
            let why = match all.iter().rev().find(|a| a.key == e.key) {
                Some(a) => format!("the registration with this key was gone before the wait began: {}", arm_text(h, a)),
                None if h.posts[p].iter().any(|&j| matches!(h.ops[j].kind, OpK::Post { key, .. } if key == e.key)) => {
                    "it differs from the packet posted".into()
                }
                None => "nothing of this poller ever had this key".into(),
            };
            return Some(Viol::new("event_of_no_registration", format!("event {}: {}; {}", ev_text(e), why, o.text())));
        }
        adj.push(slots);
    }
    if !unmatched(&adj, ns + posts.len() + h.ops.len()).is_empty() {
        return Some(Viol::new("event_duplicated", format!("one wait reported a source more than once: {}", o.text())));
    }
    None
}

/// One-shot registrations and packets are reported once; an event that resets itself at most once per signal.
fn once(h: &Hist, i: usize) -> Option<Viol> {
    let o = &h.ops[i];
    let p = o.p;
    let all = arms(h, p);
    for e in &o.evs {
        if shared(h, p, e.key) {
            continue;
        }
        let at: Vec<usize> = h.waits[p]
            .iter()
            .flat_map(|&j| h.ops[j].evs.iter().filter(|x| x.key == e.key).map(move |_| j))
            .collect();
        if at.len() < 2 {
            continue;
        }
        let mine: Vec<&Arm> = all.iter().filter(|a| a.key == e.key).collect();
        if mine.is_empty() {
            return Some(Viol::new("packet_reported_again", format!("a packet posted once was reported {} times; last by {}", at.len(), o.text())));
        }
        if let Kind::Event { manual: false } = h.srcs[mine[0].s].kind {
            let n = h.srcs[mine[0].s].incs[mine[0].inc].signals.iter().filter(|&&q| q <= o.ret).count();
            if at.len() > n {
                return Some(Viol::new(
                    "waitable_reported_again",
                    format!("an event signaled {} times was reported {} times; last by {}", n, at.len(), o.text()),
                ));
            }
        }
        let limited: Vec<usize> = at
            .into_iter()
            .filter(|&j| !mine.iter().any(|a| a.mode == LEVEL && a.from <= h.ops[j].ret && a.dend >= h.ops[j].call))
            .collect();
        let adj: Vec<Vec<usize>> = limited
            .iter()
            .map(|&j| {
                (0..mine.len())
                    .filter(|&t| mine[t].mode != LEVEL && mine[t].from <= h.ops[j].ret && mine[t].dend >= h.ops[j].call)
                    .collect()
            })
            .collect();
        if !unmatched(&adj, mine.len()).is_empty() {
            return Some(Viol::new(
                "oneshot_reported_again",
                format!("key {} was reported {} times, more than its arming allows; last by {}", e.key, limited.len(), o.text()),
            ));
        }
    }
    None
}

/// Early empty returns against notifications, one each.
fn early(h: &Hist, i: usize) -> Option<Viol> {
    let o = &h.ops[i];
    let p = o.p;
    let ws: Vec<usize> = h.waits[p]
        .iter()
        .copied()
        .filter(|&j| {
            let w = &h.ops[j];
            let OpK::Wait { to, .. } = w.kind else { return false };
            w.ok() && w.evs.is_empty() && !may_lose(h, j) && to.map_or(true, |t| ((w.t_ret - w.t_call) as u128) < t.as_nanos())
        })
        .collect();
    let ns = &h.notifies[p];
    let adj: Vec<Vec<usize>> = ws
        .iter()
        .map(|&j| {
            let w = &h.ops[j];
            // Its packet stays in the queue until a wait takes it out, even if an earlier one cleared the flag.
            let lo = h.waits[p].iter().filter(|&&k| k != j && h.ops[k].ret < w.call).map(|&k| h.ops[k].emptied).max().unwrap_or(0);
            (0..ns.len()).filter(|&t| h.ops[ns[t]].ret >= lo && h.ops[ns[t]].call <= w.ret).collect()
        })
        .collect();
    if unmatched(&adj, ns.len()).is_empty() {
        return None;
    }
    Some(Viol::new(
        "empty_early",
        format!(
            "a wait returned empty {} ns after its call, before its timeout, and no notification is left to explain it: {}",
            o.t_ret - o.t_call,
            o.text()
        ),
    ))
}

// ---------------------------------------------------------------- at quiescent states

/// A notification no wait can have answered yet (`w`: a wait that is asleep).
fn pending_notification(h: &Hist, p: usize, w: usize) -> Option<usize> {
    h.notifies[p].iter().rev().copied().find(|&n| {
        let q = &h.ops[n];
        q.ok()
            && !h.waits[p].iter().any(|&j| {
                let v = &h.ops[j];
                j != w && v.ret > q.call && (v.ret == PENDING && !v.in_kernel || v.ret != PENDING && v.ok() && !(v.kwaits == 0 && v.evs.is_empty()))
            })
    })
}

/// A packet posted that no wait reported.
fn pending_post(h: &Hist, p: usize) -> Option<usize> {
    // Reports against packets: each report of a key shared with others is given to the packet.
    let posts: Vec<usize> = h.posts[p].iter().copied().filter(|&j| h.ops[j].ok()).collect();
    let mut reports: Vec<(Ev, u64)> =
        h.waits[p].iter().flat_map(|&j| h.ops[j].evs.iter().map(move |e| (*e, h.ops[j].ret))).collect();
    for &n in &posts {
        match reports.iter().position(|(e, _)| explains_post(&h.ops[n], e)) {
            Some(t) => {
                reports.swap_remove(t);
            }
            None => return Some(n),
        }
    }
    None
}

fn now_bits(h: &Hist, a: &Arm) -> u32 {
    if h.srcs[a.s].incs.len() - 1 != a.inc {
        return 0;
    }
    let v = &s().k.srcs[a.s];
    if is_sock(h, a.s) {
        v.bits
    } else {
        v.signaled as u32
    }
}

/// The callback that was to report the registration could not.
fn gave_up(p: usize, a: &Arm) -> bool {
    s().k.refused.iter().any(|&(q, x, at)| q == p && x == a.s && at >= a.from)
}

/// A registration that is certainly in force, ready, and owes a report.
fn owed(h: &Hist, p: usize) -> Option<(Arm, u32)> {
    for a in arms(h, p) {
        if a.sure == PENDING || a.pend != u64::MAX || gave_up(p, &a) {
            continue;
        }
        let m = now_bits(h, &a);
        if m & demand(h, &a) == 0 {
            continue;
        }
        if a.mode != LEVEL && h.waits[p].iter().any(|&j| h.ops[j].ret >= a.from && h.ops[j].evs.iter().any(|e| e.key == a.key)) {
            continue;
        }
        return Some((a, m));
    }
    None
}

pub fn idle_check() -> Option<Viol> {
    let sim = s();
    let h = &sim.w.hist;
    for t in 0..sim.threads.len() {
        let i = sim.threads[t].cur_op;
        if i == NO_OP {
            continue;
        }
        let o = &h.ops[i];
        let p = o.p;
        let blk = match &sim.threads[t].st {
            St::Blocked(b) => b,
            _ => continue,
        };
        if !o.is_wait() || !matches!(blk, Blk::Port(_)) {
            return Some(Viol::new("call_blocked", format!("{} is blocked on a lock; {}", o.text(), describe_threads())));
        }
        if let OpK::Wait { to: Some(to), .. } = o.kind {
            if o.sleep as u128 > to.as_nanos() + SLACK as u128 {
                return Some(too_long(h, i));
            }
            if to.is_zero() {
                return Some(Viol::new("zero_timeout_slept", format!("a wait with a zero timeout sleeps: {}", o.text())));
            }
            if sim.threads[t].deadline == crate::sim::NEVER && to.as_secs() < 1 << 32 {
                return Some(Viol::new("timeout_lost", format!("{} sleeps for ever", o.text())));
            }
        }
        if let Some(v) = spin(h, i) {
            return Some(v);
        }
        if let Some(n) = pending_notification(h, p, i) {
            return Some(Viol::new(
                "notification_lost",
                format!("{} sleeps although {} was not answered by any wait; {}", o.text(), h.ops[n].text(), describe_threads()),
            ));
        }
        if let Some(n) = pending_post(h, p) {
            return Some(Viol::new("packet_lost", format!("{} sleeps although {} was not reported", o.text(), h.ops[n].text())));
        }
        if let Some((a, m)) = owed(h, p) {
            return Some(Viol::new(
                "readiness_lost",
                format!("{} sleeps although source s{} is armed ({}) and ready (conditions {:#x}); {}", o.text(), a.s, arm_text(h, &a), m, describe_threads()),
            ));
        }
    }
    None
}

/// A source is about to be closed, deleted from every poller: nothing of it may be left in the system.
pub fn before_close(x: usize) -> Option<Viol> {
    let sim = s();
    let h = &sim.w.hist;
    // A registration made by a call that failed, or that overlapped the deletion, is another matter.
    let np = h.chg.len();
    for p in 0..np {
        for a in arms_of(h, p, x) {
            if a.inc == h.srcs[x].incs.len() - 1 && a.dend == u64::MAX {
                return None;
            }
        }
    }
    if let Some(op) = sim.k.ops.iter().find(|o| o.sock == x) {
        return Some(Viol::new("poll_left", format!("s{} was deleted everywhere but a poll of it (mask {:#x}) is still in flight", x, op.mask)));
    }
    if sim.k.waits.iter().any(|w| w.ev == x && w.st == WaitSt::Armed) {
        return Some(Viol::new("wait_left", format!("s{} was removed everywhere but a wait for it is still registered", x)));
    }
    None
}

pub fn at_end() -> Option<Viol> {
    let sim = s();
    let h = &sim.w.hist;
    // Everything ready during a drain must have come out of it.
    for &(p, a0, a1) in &h.drains {
        let ws: Vec<usize> = (a0..a1).filter(|&j| h.ops[j].is_wait() && h.ops[j].p == p).collect();
        let (Some(&f), Some(&l)) = (ws.first(), ws.last()) else { continue };
        if ws.iter().any(|&j| !h.ops[j].ok()) {
            continue;
        }
        let (lo, hi) = (h.ops[f].call, h.ops[l].ret);
        for a in arms(h, p) {
            if a.sure > lo || a.pend < hi || gave_up(p, &a) {
                continue;
            }
            let d = demand(h, &a);
            let ms = masks(h, a.s, a.inc, lo, hi);
            if d == 0 || ms.iter().any(|m| m & d == 0) {
                continue;
            }
            if matches!(h.srcs[a.s].kind, Kind::Event { manual: false }) && taken(h, p, &a, lo, hi) {
                continue;
            }
            if ws.iter().any(|&j| h.ops[j].evs.iter().any(|e| e.key == a.key)) {
                continue;
            }
            if a.mode != LEVEL
                && h.waits[p].iter().any(|&j| h.ops[j].ret >= a.from && h.ops[j].ret < lo && h.ops[j].evs.iter().any(|e| e.key == a.key))
            {
                continue;
            }
            return Some(Viol::new(
                "ready_source_starved",
                format!(
                    "source s{} was armed ({}) and ready (conditions {:#x}) but {} waits with a zero timeout in a row never reported it",
                    a.s,
                    arm_text(h, &a),
                    ms[0],
                    ws.len()
                ),
            ));
        }
    }
    for p in 0..h.posts.len() {
        // The last drain saw every packet (a poller dropped earlier did not have to).
        if !h.drains.iter().rev().any(|d| d.0 == p && (d.1..d.2).any(|j| h.ops[j].is_wait() && h.ops[j].p == p)) {
            continue;
        }
        if h.waits[p].last().map_or(true, |&j| !h.ops[j].ok()) {
            continue;
        }
        if let Some(n) = pending_post(h, p) {
            return Some(Viol::new("packet_lost", format!("{} was never reported", h.ops[n].text())));
        }
    }
    for p in 0..h.chg.len() {
        for x in 0..h.chg[p].len() {
            for inc in 0..h.srcs[x].incs.len() {
                if let Some(v) = table(h, p, x, inc) {
                    return Some(v);
                }
            }
        }
    }
    let left: Vec<String> = sim
        .k
        .handles
        .iter()
        .filter(|(_, o)| !matches!(o, Obj::Sock(_) | Obj::Event(_)))
        .map(|(h, o)| format!("{:#x}: {:?}", h, o))
        .collect();
    if !left.is_empty() {
        return Some(Viol::new("handles_left", format!("handles are open after every poller was dropped: {}", left.join(", "))));
    }
    if sim.k.waits.iter().any(|w| w.st == WaitSt::Armed) {
        return Some(Viol::new("wait_left", "a wait is registered after every poller was dropped".into()));
    }
    let left = crate::heap::left();
    if !left.is_empty() {
        return Some(Viol::new(
            "memory_left",
            format!("{} blocks are left after every poller was dropped, of {:?} bytes", left.len(), &left[..left.len().min(20)]),
        ));
    }
    None
}

/// The last signal of an event that resets itself went to another registration, or before the drain.
fn taken(h: &Hist, p: usize, a: &Arm, lo: u64, hi: u64) -> bool {
    let k = &s().k;
    let set = h.srcs[a.s].incs[a.inc].signals.iter().copied().filter(|&q| q <= hi).max().unwrap_or(0);
    k.takes.iter().any(|t| {
        let w = &k.waits[t.wait];
        t.ev == a.s && t.at >= set && t.at <= hi && (t.at < lo || w.p != p || w.at < a.from)
    })
}

// ---------------------------------------------------------------- one atomic table

#[derive(Clone, Copy, PartialEq)]
enum Need {
    /// Fits any state and changes nothing.
    Any,
    /// Must have been in this state; then the state becomes the second.
    From(bool, bool),
    /// No state explains it.
    Never,
}

fn need(o: &Op) -> Need {
    let Some(res) = &o.res else { return Need::Any };
    let edge = matches!(o.kind, OpK::Add { mode: EDGE | EDGE_ONESHOT, .. } | OpK::Mod { mode: EDGE | EDGE_ONESHOT, .. });
    match (&o.kind, res) {
        // Judged at its return.
        _ if edge => Need::Any,
        (OpK::Add { .. }, R::Ok(_)) => Need::From(false, true),
        (OpK::Mod { .. }, R::Ok(_)) => Need::From(true, true),
        // Deleting what is not there is no error.
        (OpK::Del, R::Ok(_)) => Need::Any,
        (OpK::Add { .. }, R::Err(K::AlreadyExists, _)) => Need::From(true, true),
        (OpK::Mod { .. }, R::Err(K::NotFound, _)) => Need::From(false, false),
        // An addition that failed changes nothing.
        (OpK::Add { .. }, R::Err(..)) | (OpK::Mod { .. }, R::Err(..)) if o.fault => Need::Any,
        _ => Need::Never,
    }
}

fn table(h: &Hist, p: usize, x: usize, inc: usize) -> Option<Viol> {
    let ops: Vec<usize> = h.chg[p][x].iter().copied().filter(|&j| h.ops[j].inc == inc && h.ops[j].res.is_some()).collect();
    let needs: Vec<Need> = ops.iter().map(|&j| need(&h.ops[j])).collect();
    if let Some(i) = needs.iter().position(|n| *n == Need::Never) {
        return Some(Viol::new("call_result_unexplained", format!("no state of the registration table explains {}", h.ops[ops[i]].text())));
    }
    let n = ops.len();
    if n == 0 || n > 120 {
        return None;
    }
    // Search for an order (Wing and Gong) over sets of linearised operations.
    let mut seen: Set<(u128, bool)> = Set::default();
    let mut stack: Vec<(u128, bool)> = vec![(0, false)];
    let full = (1u128 << n) - 1;
    let mut best = (0u32, 0u128, false);
    while let Some((done, st)) = stack.pop() {
        if done == full {
            return None;
        }
        if !seen.insert((done, st)) {
            continue;
        }
        if done.count_ones() >= best.0 {
            best = (done.count_ones(), done, st);
        }
        let min_ret = (0..n).filter(|i| done >> i & 1 == 0).map(|i| h.ops[ops[i]].ret).min().unwrap();
        for i in 0..n {
            if done >> i & 1 == 1 || h.ops[ops[i]].call > min_ret {
                continue;
            }
            let d = done | 1 << i;
            if h.ops[ops[i]].kind == OpK::Del {
                stack.push((d, false));
                continue;
            }
            match needs[i] {
                Need::Any => stack.push((d, st)),
                Need::From(a, b) if a == st => stack.push((d, b)),
                _ => {}
            }
        }
    }
    let next = (0..n).find(|i| best.1 >> i & 1 == 0).unwrap();
    let o = &h.ops[ops[next]];
    let hist: Vec<String> = ops.iter().map(|&j| h.ops[j].text()).collect();
    Some(Viol::new(
        "calls_not_atomic",
        format!(
            "no order of the calls on source s{} of p{} explains their results; stuck at {} with the source {}; calls: {}",
            x,
            p,
            o.text(),
            if best.2 { "registered" } else { "not registered" },
            hist.join(" | ")
        ),
    ))
}
