//! Shrinks a failing run: fewer operations, faults, stalls and context switches, same rule.

use std::time::Instant;

use crate::runner::{execute, search_mode, Outcome};
use crate::rng::mix;
use crate::scenario::{Act, Fam, Scenario};
use crate::sim::{Mode, Trace};

pub struct Min<'a> {
    pub prop: &'a str,
    pub rule: &'static str,
    pub fam: Fam,
    pub until: Instant,
    pub tries: u64,
}

impl Min<'_> {
    fn fails(&mut self, o: &Outcome) -> bool {
        matches!(&o.viol, Some(v) if v.rule == self.rule && v.counts_for(self.prop))
    }

    fn replay(&mut self, sc: &Scenario, t: &Trace) -> Option<Trace> {
        self.tries += 1;
        let o = execute(sc, Mode::Replay(t.clone()), false);
        if self.fails(&o) {
            Some(o.trace)
        } else {
            None
        }
    }

    fn time_left(&self) -> bool {
        Instant::now() < self.until
    }

    fn research(&mut self, sc: &Scenario, n: u64) -> Option<Trace> {
        for k in 0..n {
            if !self.time_left() {
                return None;
            }
            self.tries += 1;
            let o = execute(sc, search_mode(mix(self.tries ^ 0x7777 ^ k << 32), &self.fam, sc), false);
            if self.fails(&o) {
                return Some(o.trace);
            }
        }
        None
    }

    fn shrink_trace(&mut self, sc: &Scenario, t: Trace) -> Trace {
        let mut best = t;
        // Faults, stalls, switches: remove chunks, then single ones.
        loop {
            let before = size(&best);
            for what in 0..3 {
                let mut chunk = count(&best, what).max(1);
                while chunk >= 1 {
                    let mut at = 0;
                    while at < count(&best, what) {
                        if !self.time_left() {
                            return best;
                        }
                        let cand = without(&best, what, at, chunk);
                        match self.replay(sc, &cand) {
                            // The trace a replay records is what it really did.
                            Some(t) if size(&t) < size(&best) => best = t,
                            _ => at += chunk,
                        }
                    }
                    chunk /= 2;
                }
            }
            if size(&best) >= before {
                return best;
            }
        }
    }

    pub fn run(&mut self, sc: Scenario, t: Trace) -> (Scenario, Trace) {
        let (mut sc, mut t) = (sc, t);
        t = self.shrink_trace(&sc, t);
        loop {
            let mut progress = false;
            for cand in candidates(&sc) {
                if !self.time_left() {
                    return (sc, t);
                }
                let got = match self.replay(&cand, &t) {
                    Some(x) => Some(x),
                    None => self.research(&cand, 150),
                };
                if let Some(x) = got {
                    sc = cand;
                    t = self.shrink_trace(&sc, x);
                    progress = true;
                    break;
                }
            }
            if !progress {
                return (sc, t);
            }
        }
    }
}

fn size(t: &Trace) -> usize {
    t.switch.len() + t.stall.len() * 2 + t.fault.len() * 2
}

fn count(t: &Trace, what: u8) -> usize {
    match what {
        0 => t.fault.len(),
        1 => t.stall.len(),
        _ => t.switch.len(),
    }
}

fn without(t: &Trace, what: u8, at: usize, n: usize) -> Trace {
    fn cut<V: Clone>(m: &std::collections::BTreeMap<u32, V>, at: usize, n: usize) -> std::collections::BTreeMap<u32, V> {
        m.iter().enumerate().filter(|(i, _)| *i < at || *i >= at + n).map(|(_, (k, v))| (*k, v.clone())).collect()
    }
    let mut t = t.clone();
    match what {
        0 => t.fault = cut(&t.fault, at, n),
        1 => t.stall = cut(&t.stall, at, n),
        _ => t.switch = cut(&t.switch, at, n),
    }
    t
}

/// Simpler scenarios, boldest first.
fn candidates(sc: &Scenario) -> Vec<Scenario> {
    let mut v = Vec::new();
    // Empty a thread.
    for i in 0..sc.threads.len() {
        if !sc.threads[i].1.is_empty() {
            let mut c = sc.clone();
            c.threads[i].1.clear();
            v.push(c);
        }
    }
    if sc.drain > 0 {
        for d in 0..sc.drain {
            let mut c = sc.clone();
            c.drain = d;
            v.push(c);
        }
    }
    // Halves, then single operations.
    for i in 0..sc.threads.len() {
        let n = sc.threads[i].1.len();
        if n >= 4 {
            for (a, b) in [(0, n / 2), (n / 2, n)] {
                let mut c = sc.clone();
                c.threads[i].1.drain(a..b);
                v.push(c);
            }
        }
    }
    for i in 0..sc.threads.len() {
        for j in 0..sc.threads[i].1.len() {
            let mut c = sc.clone();
            c.threads[i].1.remove(j);
            v.push(c);
        }
    }
    for j in 0..sc.init.len() {
        let mut c = sc.clone();
        c.init.remove(j);
        v.push(c);
    }
    if sc.degrade != Default::default() {
        let mut c = sc.clone();
        c.degrade = Default::default();
        v.push(c);
        for k in 0..3 {
            let mut c = sc.clone();
            match k {
                0 => c.degrade.eventfd = 0,
                1 => c.degrade.timerfd = 0,
                _ => c.degrade.pipe2 = 0,
            }
            if c.degrade != sc.degrade {
                v.push(c);
            }
        }
    }
    if sc.fail_new.is_some() {
        let mut c = sc.clone();
        c.fail_new = None;
        v.push(c);
    }
    // Unused sources at the end.
    if let Some(x) = sc.srcs.len().checked_sub(1) {
        let used = sc.init.iter().chain(sc.threads.iter().flat_map(|t| &t.1)).any(|a| match a {
            Act::Add { s, .. } | Act::Mod { s, .. } | Act::Del { s, .. } | Act::Src { s, .. } | Act::Reopen { s } => *s == x,
            _ => false,
        });
        if !used {
            let mut c = sc.clone();
            c.srcs.pop();
            v.push(c);
        }
    }
    // Empty threads at the end (thread numbers in traces stay valid).
    while let Some(t) = sc.threads.last() {
        if t.1.is_empty() && sc.threads.len() > 1 {
            let mut c = sc.clone();
            c.threads.pop();
            v.push(c);
        }
        break;
    }
    v
}
