//! What a run does: sources, pollers, and what each thread calls. Generated from the seed, printed and parsed.

use std::time::Duration;

use crate::kernel::*;
use crate::rng::Rng;

pub const I_R: u8 = 1;
pub const I_W: u8 = 2;
pub const I_PRI: u8 = 4;
pub const I_HUP: u8 = 8;
/// Change the event delivered last and pass it on, instead of a fresh one.
pub const I_REUSE: u8 = 16;
/// `add` and `modify` instead of their `_with_mode` forms.
pub const I_DEFAULT_API: u8 = 32;

pub const ONESHOT: u8 = 0;
pub const LEVEL: u8 = 1;
pub const EDGE: u8 = 2;
pub const EDGE_ONESHOT: u8 = 3;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// A socket; layered: its base handle is another one and hard to get at.
    Sock { layered: bool },
    /// A waitable event.
    Event { manual: bool },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Def {
    pub kind: Kind,
    pub init: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Add { p: usize, s: usize, key: usize, int: u8, mode: u8 },
    Mod { p: usize, s: usize, key: usize, int: u8, mode: u8 },
    Del { p: usize, s: usize },
    Wait { p: usize, to: Option<Duration> },
    Notify { p: usize },
    Post { p: usize, key: usize, int: u8 },
    /// Conditions of a socket; bit 0 of an event: signaled.
    Src { s: usize, set: u32, clr: u32 },
    Reopen { s: usize },
    Sleep(u64),
    Drop { p: usize },
    /// A poller of its own, whose n-th system call fails.
    Temp { fail: Option<u32> },
    /// The same modification many times.
    Storm { p: usize, s: usize, key: usize, int: u8, mode: u8, n: u32 },
}

impl Act {
    pub fn text(&self) -> String {
        match self {
            Act::Add { p, s, key, int, mode } => format!("add {} {} {} {} {}", p, s, key, int, mode),
            Act::Mod { p, s, key, int, mode } => format!("mod {} {} {} {} {}", p, s, key, int, mode),
            Act::Del { p, s } => format!("del {} {}", p, s),
            Act::Wait { p, to } => format!("wait {} {}", p, to.map_or("-".into(), |d| d.as_nanos().to_string())),
            Act::Notify { p } => format!("notify {}", p),
            Act::Post { p, key, int } => format!("post {} {} {}", p, key, int),
            Act::Src { s, set, clr } => format!("src {} {} {}", s, set, clr),
            Act::Reopen { s } => format!("reopen {}", s),
            Act::Sleep(n) => format!("sleep {}", n),
            Act::Drop { p } => format!("drop {}", p),
            Act::Temp { fail } => format!("temp {}", fail.map_or("-".into(), |n| n.to_string())),
            Act::Storm { p, s, key, int, mode, n } => format!("storm {} {} {} {} {} {}", p, s, key, int, mode, n),
        }
    }
    fn parse(l: &str) -> Option<Act> {
        let w: Vec<&str> = l.split_whitespace().collect();
        let n = |i: usize| -> Option<u64> { w.get(i)?.parse().ok() };
        let u = |i: usize| -> Option<usize> { w.get(i)?.parse().ok() };
        let b = |i: usize| -> Option<u8> { w.get(i)?.parse().ok() };
        Some(match *w.first()? {
            "add" => Act::Add { p: u(1)?, s: u(2)?, key: u(3)?, int: b(4)?, mode: b(5)? },
            "mod" => Act::Mod { p: u(1)?, s: u(2)?, key: u(3)?, int: b(4)?, mode: b(5)? },
            "del" => Act::Del { p: u(1)?, s: u(2)? },
            "wait" => Act::Wait {
                p: u(1)?,
                to: match *w.get(2)? {
                    "-" => None,
                    x => {
                        let n: u128 = x.parse().ok()?;
                        Some(Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32))
                    }
                },
            },
            "notify" => Act::Notify { p: u(1)? },
            "post" => Act::Post { p: u(1)?, key: u(2)?, int: b(3)? },
            "src" => Act::Src { s: u(1)?, set: n(2)? as u32, clr: n(3)? as u32 },
            "reopen" => Act::Reopen { s: u(1)? },
            "sleep" => Act::Sleep(n(1)?),
            "drop" => Act::Drop { p: u(1)? },
            "temp" => Act::Temp { fail: n(1).map(|x| x as u32) },
            "storm" => {
                Act::Storm { p: u(1)?, s: u(2)?, key: u(3)?, int: b(4)?, mode: b(5)?, n: n(6)? as u32 }
            }
            _ => return None,
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scenario {
    pub cost: u64,
    pub hash_seed: u64,
    pub pollers: usize,
    pub pool: usize,
    pub srcs: Vec<Def>,
    pub init: Vec<Act>,
    pub threads: Vec<(usize, Vec<Act>)>,
    pub drain: u8,
    pub jan_cap: usize,
    /// Drop the pollers without deleting anything first.
    pub rough: bool,
    /// At most this many entries in a bounded queue of the library; 0: as many as it asked for.
    pub queue: usize,
}

impl Scenario {
    pub fn text(&self) -> String {
        let mut o = format!(
            "cost {}\nhash {}\npollers {}\npool {}\ndrain {}\njan {}\nrough {}\nqueue {}\n",
            self.cost, self.hash_seed, self.pollers, self.pool, self.drain, self.jan_cap, self.rough as u8, self.queue
        );
        for d in &self.srcs {
            let (a, b) = match d.kind {
                Kind::Sock { layered } => ("sock", layered),
                Kind::Event { manual } => ("event", manual),
            };
            o += &format!("source {} {} {}\n", a, b as u8, d.init);
        }
        for a in &self.init {
            o += &format!("init {}\n", a.text());
        }
        for (c, t) in &self.threads {
            o += &format!("thread {}\n", c);
            for a in t {
                o += &format!("  {}\n", a.text());
            }
        }
        o
    }
    pub fn parse(t: &str) -> Option<Scenario> {
        let mut s = Scenario {
            cost: 100,
            hash_seed: 1,
            pollers: 1,
            pool: 1,
            srcs: vec![],
            init: vec![],
            threads: vec![],
            drain: 2,
            jan_cap: 64,
            rough: false,
            queue: 0,
        };
        for l in t.lines() {
            let (k, v) = l.trim().split_once(' ').unwrap_or((l.trim(), ""));
            match k {
                _ if l.starts_with("  ") => s.threads.last_mut()?.1.push(Act::parse(l)?),
                "cost" => s.cost = v.parse().ok()?,
                "hash" => s.hash_seed = v.parse().ok()?,
                "pollers" => s.pollers = v.parse().ok()?,
                "pool" => s.pool = v.parse().ok()?,
                "drain" => s.drain = v.parse().ok()?,
                "jan" => s.jan_cap = v.parse().ok()?,
                "rough" => s.rough = v == "1",
                "queue" => s.queue = v.parse().ok()?,
                "source" => {
                    let w: Vec<&str> = v.split_whitespace().collect();
                    let f = *w.get(1)? == "1";
                    let kind = if w[0] == "sock" { Kind::Sock { layered: f } } else { Kind::Event { manual: f } };
                    s.srcs.push(Def { kind, init: w.get(2)?.parse().ok()? });
                }
                "init" => s.init.push(Act::parse(v)?),
                "thread" => s.threads.push((v.parse().ok()?, vec![])),
                "" => {}
                _ => return None,
            }
        }
        Some(s)
    }
}

/// How likely things are in one family of runs, each out of 16.
#[derive(Clone, Debug)]
pub struct Fam {
    pub errno: u64,
}

pub struct Gen {
    pub sc: Scenario,
    pub fam: Fam,
}

fn interest(r: &mut Rng, waitable: bool) -> u8 {
    let mut i = *r.pick(&[I_R, I_R, I_W, I_R | I_W, 0]);
    if !waitable {
        if r.chance(1, 8) {
            i |= I_PRI;
        }
        if r.chance(1, 8) {
            i |= I_HUP;
        }
    }
    if r.chance(1, 10) {
        i |= I_REUSE;
    }
    i
}

fn mode(r: &mut Rng) -> u8 {
    *r.pick(&[ONESHOT, ONESHOT, ONESHOT, ONESHOT, LEVEL, LEVEL, LEVEL, LEVEL, LEVEL, EDGE, EDGE_ONESHOT])
}

fn timeout(r: &mut Rng) -> Option<Duration> {
    match r.below(10) {
        0..=3 => None,
        4 | 5 => Some(Duration::ZERO),
        6 => Some(Duration::from_nanos(r.log_range(1, 3_000_000))),
        7 => Some(Duration::from_nanos(r.log_range(1_000_000, 500_000_000))),
        8 => Some(Duration::from_millis(r.range(1, 60))),
        _ => Some(*r.pick(&[
            Duration::from_millis(u32::MAX as u64 - 1),
            Duration::from_millis(u32::MAX as u64),
            Duration::from_nanos(u32::MAX as u64 * 1_000_000 - 1),
            Duration::from_millis(u32::MAX as u64 + 1),
            Duration::from_millis(u32::MAX as u64 + 5000),
            Duration::from_millis(i32::MAX as u64 + 1),
            Duration::from_secs(90 * 86400),
            Duration::from_secs(u64::MAX / 1000),
            Duration::MAX,
        ])),
    }
}

const COND: [u32; 7] = [RECEIVE, SEND, DISCONNECT, ABORT, ACCEPT, CONNECT_FAIL, EXPEDITED];

fn change(r: &mut Rng, s: usize, d: &Def) -> Act {
    match d.kind {
        Kind::Event { .. } => {
            if r.chance(2, 3) {
                Act::Src { s, set: 1, clr: 0 }
            } else {
                Act::Src { s, set: 0, clr: 1 }
            }
        }
        Kind::Sock { .. } => {
            let b = *r.pick(&[RECEIVE, RECEIVE, RECEIVE, SEND, SEND, COND[r.clone().below(7) as usize]]);
            if r.chance(3, 5) {
                Act::Src { s, set: b, clr: 0 }
            } else {
                Act::Src { s, set: 0, clr: b }
            }
        }
    }
}

pub fn generate(r: &mut Rng) -> Gen {
    let big = r.chance(1, 60);
    let storm = !big && r.chance(1, 150);
    let pollers = *r.pick(&[1, 1, 1, 1, 2]);
    let ns = if big { r.range(30, 70) } else { r.range(1, 4) } as usize;
    let waitables = r.below(4); // 0: none, 3: many
    let srcs: Vec<Def> = (0..ns)
        .map(|_| {
            let ev = r.chance(waitables, 6);
            if ev {
                Def { kind: Kind::Event { manual: r.chance(2, 3) }, init: r.chance(1, 4) as u32 }
            } else {
                let init = *r.pick(&[0, 0, RECEIVE, SEND, RECEIVE | SEND, SEND, DISCONNECT | RECEIVE, ABORT]);
                Def { kind: Kind::Sock { layered: r.chance(1, 8) }, init }
            }
        })
        .collect();
    let shared = r.chance(1, 8);
    let mut nk = 1usize;
    let mut key = |r: &mut Rng| -> usize {
        if shared {
            r.below(3) as usize
        } else {
            nk += 1;
            match nk % 7 {
                3 => usize::MAX - 1 - nk,
                5 => (1 << 32) + nk,
                _ => nk,
            }
        }
    };
    let is_ev = |s: usize| matches!(srcs[s].kind, Kind::Event { .. });
    let mut init = Vec::new();
    for s in 0..ns {
        for p in 0..pollers {
            if r.chance(2, 3) {
                init.push(Act::Add { p, s, key: key(r), int: interest(r, is_ev(s)), mode: mode(r) });
            }
        }
    }
    if r.chance(1, 4) {
        init.push(Act::Wait { p: 0, to: Some(Duration::ZERO) });
    }
    let nt = r.range(1, if big { 5 } else { 4 });
    // Swarm: which kinds of calls this run makes.
    let w: Vec<u32> = [6u32, 6, 3, 12, 5, 3, 10, 1, 3, 1, 1]
        .iter()
        .map(|&x| if r.chance(1, 5) { 0 } else { x * r.range(1, 3) as u32 })
        .collect();
    let mut threads = Vec::new();
    for t in 0..nt {
        let cap = *r.pick(&[1, 1, 2, 3, 8, 64, 0]);
        let len = if big { r.range(5, 60) } else { r.range(1, 9) };
        // Often one thread mostly waits.
        let waiter = t == 0 && r.chance(3, 4);
        let mut acts = Vec::new();
        for _ in 0..len {
            let p = r.below(pollers as u64) as usize;
            let s = r.below(ns as u64) as usize;
            let k = if waiter && r.chance(4, 5) { 3 } else { r.weighted(&w) };
            acts.push(match k {
                0 => Act::Add { p, s, key: key(r), int: interest(r, is_ev(s)) | dflt(r), mode: mode(r) },
                1 => Act::Mod { p, s, key: key(r), int: interest(r, is_ev(s)) | dflt(r), mode: mode(r) },
                2 => Act::Del { p, s },
                3 => Act::Wait { p, to: timeout(r) },
                4 => Act::Notify { p },
                5 => Act::Post { p, key: key(r), int: interest(r, false) & !I_REUSE },
                6 => change(r, s, &srcs[s]),
                7 => Act::Reopen { s },
                8 => Act::Sleep(r.log_range(100, 100_000_000)),
                9 if pollers > 1 => Act::Drop { p: pollers - 1 },
                _ => Act::Temp { fail: if r.chance(3, 4) { Some(r.below(6) as u32) } else { None } },
            });
        }
        threads.push((cap as usize, acts));
    }
    for (_, acts) in &mut threads {
        for a in acts {
            if let Act::Add { int, mode, .. } | Act::Mod { int, mode, .. } = a {
                if *int & I_DEFAULT_API != 0 {
                    *mode = ONESHOT;
                }
            }
        }
    }
    if storm {
        let s = r.below(ns as u64) as usize;
        let a = Act::Storm { p: 0, s, key: key(r), int: I_R, mode: mode(r) & 1, n: *r.pick(&[300, 1023, 1024, 1025, 1600]) };
        let t = r.below(nt) as usize;
        threads[t].1.push(a);
    }
    let sc = Scenario {
        cost: *r.pick(&[1, 50, 100, 1000, 20_000]),
        hash_seed: r.next() >> 1,
        pollers,
        pool: r.range(1, 2) as usize,
        srcs,
        init,
        threads,
        drain: *r.pick(&[0, 1, 2, 2]),
        jan_cap: *r.pick(&[1, 2, 8, 64]),
        rough: r.chance(1, 3),
        queue: if storm { 0 } else { *r.pick(&[0, 0, 0, 1, 2, 3, 4, 8]) },
    };
    Gen { sc, fam: Fam { errno: if storm { 0 } else { 4 } } }
}

fn dflt(r: &mut Rng) -> u8 {
    if r.chance(1, 8) {
        I_DEFAULT_API
    } else {
        0
    }
}
