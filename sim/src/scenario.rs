//! Scenarios: what the simulated caller threads do. Generated from a seed per property family; printable and parsable.

use std::fmt::Write as _;
use std::time::Duration;

use crate::oracle::KQ;
use crate::rng::Rng;

pub const ONESHOT: u8 = 0;
pub const LEVEL: u8 = 1;
pub const EDGE: u8 = 2;
pub const EDGE_ONESHOT: u8 = 3;

pub const I_R: u8 = 1;
pub const I_W: u8 = 2;
pub const I_PRI: u8 = 4;
pub const I_HUP: u8 = 8;
/// Use `add`/`modify` instead of the `_with_mode` forms.
pub const I_DEFAULT_API: u8 = 16;
/// Build the interest from the event last delivered to this thread instead of a fresh one.
pub const I_REUSE: u8 = 32;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SrcAct {
    Feed,
    Drain,
    Eof,
    Hup,
    HupBare,
    Unhup,
    Err,
    Unerr,
    Pri,
    Unpri,
    TxOn,
    TxOff,
}

pub const SRC_ACTS: [(SrcAct, &str); 12] = [
    (SrcAct::Feed, "feed"),
    (SrcAct::Drain, "drain"),
    (SrcAct::Eof, "eof"),
    (SrcAct::Hup, "hup"),
    (SrcAct::HupBare, "hupbare"),
    (SrcAct::Unhup, "unhup"),
    (SrcAct::Err, "err"),
    (SrcAct::Unerr, "unerr"),
    (SrcAct::Pri, "pri"),
    (SrcAct::Unpri, "unpri"),
    (SrcAct::TxOn, "txon"),
    (SrcAct::TxOff, "txoff"),
];

#[derive(Clone, PartialEq, Debug)]
pub enum Act {
    Add { p: usize, s: usize, key: usize, int: u8, mode: u8 },
    Mod { p: usize, s: usize, key: usize, int: u8, mode: u8 },
    Del { p: usize, s: usize },
    Wait { p: usize, to: Option<Duration> },
    Notify { p: usize },
    Src { s: usize, a: SrcAct },
    Reopen { s: usize },
    Sleep(u64),
    Drop { p: usize },
    /// Create a poller, use it briefly, drop it.
    Temp { fail: Option<(u32, u8)> },
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SrcKind {
    Sock,
    File,
    Nested(usize),
    /// kqueue: this signal
    Sig(usize),
    /// kqueue: what the process does; `init` says which: 0 exit, 1 fork, 2 exec
    Proc(usize),
    /// kqueue: a timer, its shortest timeout in ms
    Timer(usize),
}

impl SrcKind {
    pub fn filter(&self) -> bool {
        matches!(self, SrcKind::Sig(_) | SrcKind::Proc(_) | SrcKind::Timer(_))
    }
}

/// The timeout a timer source is given with this key: modifying one usually changes it.
pub fn timer_timeout(ms: usize, key: usize) -> Duration {
    let d = Duration::from_millis(ms as u64 * (1 + key as u64 % 3));
    // Whole seconds and fractions are passed to the kernel in different units.
    if key % 2 == 0 { d } else { d + Duration::from_nanos(1_000_001) }
}

#[derive(Clone, PartialEq, Debug)]
pub struct SrcDef {
    pub kind: SrcKind,
    /// initial conditions: bit 0 readable, bit 1 writable; bit 2: a TCP socket (no WRBAND)
    pub init: u8,
}

#[derive(Clone, Default, PartialEq, Debug)]
pub struct Degrade {
    pub eventfd: i32,
    pub timerfd: i32,
    pub pipe2: i32,
}

impl Degrade {
    pub fn missing(&self, name: &str) -> Option<i32> {
        let e = match name {
            "eventfd" => self.eventfd,
            "timerfd_create" => self.timerfd,
            "pipe2" => self.pipe2,
            _ => 0,
        };
        if e != 0 {
            Some(e)
        } else {
            None
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Scenario {
    pub pollers: usize,
    pub srcs: Vec<SrcDef>,
    pub init: Vec<Act>,
    pub threads: Vec<(usize, Vec<Act>)>, // (event buffer capacity, actions)
    pub jan_cap: usize,
    /// 0 = settle only, 1 = also notification/timeout probes, 2 = also re-arm rounds
    pub drain: u8,
    pub cost: u64,
    pub hash_seed: u64,
    pub degrade: Degrade,
    /// (poller, n-th creation call, errno selector)
    pub fail_new: Option<(usize, u32, u8)>,
    pub pipe_cap: usize,
    /// The lowest descriptor number of the process that is free.
    pub fd_base: i32,
}

fn dur(to: &Option<Duration>) -> String {
    match to {
        None => "inf".into(),
        Some(d) => format!("{}.{:09}", d.as_secs(), d.subsec_nanos()),
    }
}

fn int_str(i: u8) -> String {
    let mut s = String::new();
    for (b, c) in [(I_R, 'r'), (I_W, 'w'), (I_PRI, 'p'), (I_HUP, 'h'), (I_DEFAULT_API, 'd'), (I_REUSE, 'u')] {
        if i & b != 0 {
            s.push(c);
        }
    }
    if s.is_empty() {
        s.push('-');
    }
    s
}

const MODES: [&str; 4] = ["oneshot", "level", "edge", "edge-oneshot"];

impl Act {
    pub fn text(&self) -> String {
        match self {
            Act::Add { p, s, key, int, mode } => {
                format!("add p{} s{} key={} int={} mode={}", p, s, key, int_str(*int), MODES[*mode as usize])
            }
            Act::Mod { p, s, key, int, mode } => {
                format!("mod p{} s{} key={} int={} mode={}", p, s, key, int_str(*int), MODES[*mode as usize])
            }
            Act::Del { p, s } => format!("del p{} s{}", p, s),
            Act::Wait { p, to } => format!("wait p{} {}", p, dur(to)),
            Act::Notify { p } => format!("notify p{}", p),
            Act::Src { s, a } => format!("src s{} {}", s, SRC_ACTS.iter().find(|x| x.0 == *a).unwrap().1),
            Act::Reopen { s } => format!("reopen s{}", s),
            Act::Sleep(n) => format!("sleep {}", n),
            Act::Drop { p } => format!("drop p{}", p),
            Act::Temp { fail: None } => "temp".into(),
            Act::Temp { fail: Some((a, b)) } => format!("temp {} {}", a, b),
        }
    }

    pub fn parse(l: &str) -> Option<Act> {
        let w: Vec<&str> = l.split_whitespace().collect();
        let num = |x: &str| x.trim_start_matches(['p', 's']).parse::<usize>().ok();
        let kv = |x: &str| x.split_once('=').map(|y| y.1.to_string());
        Some(match *w.first()? {
            op @ ("add" | "mod") => {
                let (p, s) = (num(w.get(1)?)?, num(w.get(2)?)?);
                let key = kv(w.get(3)?)?.parse().ok()?;
                let mut int = 0;
                for c in kv(w.get(4)?)?.chars() {
                    int |= match c {
                        'r' => I_R,
                        'w' => I_W,
                        'p' => I_PRI,
                        'h' => I_HUP,
                        'd' => I_DEFAULT_API,
                        'u' => I_REUSE,
                        _ => 0,
                    };
                }
                let m = kv(w.get(5)?)?;
                let mode = MODES.iter().position(|x| *x == m)? as u8;
                if op == "add" {
                    Act::Add { p, s, key, int, mode }
                } else {
                    Act::Mod { p, s, key, int, mode }
                }
            }
            "del" => Act::Del { p: num(w.get(1)?)?, s: num(w.get(2)?)? },
            "wait" => {
                let t = *w.get(2)?;
                let to = if t == "inf" {
                    None
                } else {
                    let (a, b) = t.split_once('.')?;
                    Some(Duration::new(a.parse().ok()?, b.parse().ok()?))
                };
                Act::Wait { p: num(w.get(1)?)?, to }
            }
            "notify" => Act::Notify { p: num(w.get(1)?)? },
            "src" => {
                let a = SRC_ACTS.iter().find(|x| Some(&x.1) == w.get(2))?.0;
                Act::Src { s: num(w.get(1)?)?, a }
            }
            "reopen" => Act::Reopen { s: num(w.get(1)?)? },
            "sleep" => Act::Sleep(w.get(1)?.parse().ok()?),
            "drop" => Act::Drop { p: num(w.get(1)?)? },
            "temp" => Act::Temp {
                fail: match (w.get(1), w.get(2)) {
                    (Some(a), Some(b)) => Some((a.parse().ok()?, b.parse().ok()?)),
                    _ => None,
                },
            },
            _ => return None,
        })
    }
}

impl Scenario {
    pub fn text(&self) -> String {
        let mut o = String::new();
        let _ = writeln!(o, "pollers {}", self.pollers);
        let _ = writeln!(o, "jan_cap {}", self.jan_cap);
        let _ = writeln!(o, "drain {}", self.drain);
        let _ = writeln!(o, "cost {}", self.cost);
        let _ = writeln!(o, "hash_seed {}", self.hash_seed);
        let _ = writeln!(o, "pipe_cap {}", self.pipe_cap);
        let _ = writeln!(o, "fd_base {}", self.fd_base);
        let d = &self.degrade;
        let _ = writeln!(o, "degrade {} {} {}", d.eventfd, d.timerfd, d.pipe2);
        if let Some((p, n, e)) = self.fail_new {
            let _ = writeln!(o, "fail_new {} {} {}", p, n, e);
        }
        for s in &self.srcs {
            let k = match s.kind {
                SrcKind::Sock => "sock".to_string(),
                SrcKind::File => "file".to_string(),
                SrcKind::Nested(q) => format!("nested:{}", q),
                SrcKind::Sig(q) => format!("signal:{}", q),
                SrcKind::Proc(q) => format!("process:{}", q),
                SrcKind::Timer(q) => format!("timer:{}", q),
            };
            let _ = writeln!(o, "source {} {}", k, s.init);
        }
        for a in &self.init {
            let _ = writeln!(o, "init {}", a.text());
        }
        for (cap, acts) in &self.threads {
            let _ = writeln!(o, "thread {}", cap);
            for a in acts {
                let _ = writeln!(o, "  {}", a.text());
            }
        }
        o
    }

    pub fn parse(t: &str) -> Result<Scenario, String> {
        let mut s = Scenario {
            pollers: 1,
            srcs: vec![],
            init: vec![],
            threads: vec![],
            jan_cap: 64,
            drain: 2,
            cost: 100,
            hash_seed: 1,
            degrade: Degrade::default(),
            fail_new: None,
            pipe_cap: 65536,
            fd_base: 1000,
        };
        for line in t.lines() {
            let l = line.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            let e = || format!("bad line: {}", l);
            let nums = || -> Result<Vec<i64>, String> { v.split_whitespace().map(|x| x.parse().map_err(|_| e())).collect() };
            match k {
                "pollers" => s.pollers = v.parse().map_err(|_| e())?,
                "jan_cap" => s.jan_cap = v.parse().map_err(|_| e())?,
                "drain" => s.drain = v.parse().map_err(|_| e())?,
                "cost" => s.cost = v.parse().map_err(|_| e())?,
                "hash_seed" => s.hash_seed = v.parse().map_err(|_| e())?,
                "pipe_cap" => s.pipe_cap = v.parse().map_err(|_| e())?,
                "fd_base" => s.fd_base = v.parse().map_err(|_| e())?,
                "degrade" => {
                    let n = nums()?;
                    s.degrade = Degrade { eventfd: n[0] as i32, timerfd: n[1] as i32, pipe2: n[2] as i32 };
                }
                "fail_new" => {
                    let n = nums()?;
                    s.fail_new = Some((n[0] as usize, n[1] as u32, n[2] as u8));
                }
                "source" => {
                    let (a, b) = v.split_once(' ').ok_or_else(e)?;
                    let kind = match a {
                        "sock" => SrcKind::Sock,
                        "file" => SrcKind::File,
                        x => {
                            let (k, n) = x.split_once(':').ok_or_else(e)?;
                            let n = n.parse().map_err(|_| e())?;
                            match k {
                                "nested" => SrcKind::Nested(n),
                                "signal" => SrcKind::Sig(n),
                                "process" => SrcKind::Proc(n),
                                "timer" => SrcKind::Timer(n),
                                _ => return Err(e()),
                            }
                        }
                    };
                    s.srcs.push(SrcDef { kind, init: b.parse().map_err(|_| e())? });
                }
                "init" => s.init.push(Act::parse(v).ok_or_else(e)?),
                "thread" => s.threads.push((v.parse().map_err(|_| e())?, vec![])),
                _ => {
                    let a = Act::parse(l).ok_or_else(e)?;
                    s.threads.last_mut().ok_or_else(e)?.1.push(a);
                }
            }
        }
        Ok(s)
    }
}

// ---------------------------------------------------------------- generation

/// Knobs of a family of scenarios.
#[derive(Clone)]
pub struct Fam {
    pub threads: (u64, u64),
    pub pollers: (u64, u64),
    pub srcs: (u64, u64),
    pub ops: (u64, u64),
    /// add, mod, del, wait, notify, src, reopen, sleep, drop, temp
    pub w: [u32; 10],
    pub modes: [u32; 4],
    /// chance (of 16) that an interest also asks for priority / hang-up
    pub pri: u64,
    pub hup: u64,
    /// hang-up, error, priority among source actions
    pub src_hup: u32,
    pub src_pri: u32,
    /// 0 normal, 1 diverse, 2 with extremes
    pub timeouts: u8,
    /// 0 normal, 1 tiny
    pub caps: u8,
    pub eintr: u64,
    pub errno: u64,
    /// chance of 16
    pub degrade: u64,
    pub fail_new: u64,
    pub nested: u64,
    pub file: u64,
    pub bad_key: u64,
    pub shared_keys: u64,
    pub storm: u64,
    pub waiters: (u64, u64),
    /// kqueue: chance of 16 that a source is a signal, process or timer
    pub filters: u64,
}

/// The properties of the kqueue backend are looked for in the situations of all others.
fn kq_family(prop: &str, r: &mut Rng) -> Fam {
    let all: &[&str] = if prop == "C22" {
        &["C04", "C05", "C06", "C07", "C08", "C09", "C10", "C15", "C16", "C18", "C19", "C20"]
    } else {
        &["C01", "C02", "C03", "C10", "C11", "C12", "C13", "C14", "C15", "C19", "C21"]
    };
    let mut f = family(*r.pick(all), r);
    f.file = 0;
    f.degrade = 0;
    f.src_pri = 0;
    f.filters = *r.pick(&[0, 0, 4, 10]);
    f
}

/// Event ports have one-shot mode only; the others are refused.
fn port_family(r: &mut Rng) -> Fam {
    let all: &[&str] = &[
        "C01", "C02", "C03", "C04", "C05", "C06", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20",
        "C21",
    ];
    let mut f = family(*r.pick(all), r);
    f.file = 0;
    f.degrade = 0;
    f.modes = *r.pick(&[[1, 0, 0, 0], [30, 1, 1, 1], [3, 1, 1, 1]]);
    f
}

pub fn family(prop: &str, r: &mut Rng) -> Fam {
    if prop == "C22" || prop == "C27" {
        return kq_family(prop, r);
    }
    if prop == "C28" {
        return port_family(r);
    }
    if prop == "C29" {
        let all: &[&str] = &[
            "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
            "C18", "C20", "C21",
        ];
        let own = if crate::oracle::REDOX && r.chance(1, 12) { "C19" } else { *r.pick(all) };
        let mut f = family(own, r);
        if !crate::oracle::VITA && !crate::oracle::REDOX {
            f.degrade = 0;
        }
        return f;
    }
    let mut f = Fam {
        threads: (2, 4),
        pollers: (1, 1),
        srcs: (1, 3),
        ops: (3, 9),
        w: [4, 6, 2, 8, 3, 8, 0, 2, 0, 0],
        modes: [6, 3, 2, 1],
        pri: 1,
        hup: 1,
        src_hup: 1,
        src_pri: 1,
        timeouts: 0,
        caps: 0,
        eintr: 5,
        errno: 2,
        degrade: 2,
        fail_new: 0,
        nested: 0,
        file: 0,
        bad_key: 0,
        shared_keys: 2,
        storm: 1,
        waiters: (1, 2),
        filters: 0,
    };
    match prop {
        "C01" => {
            f.w = [2, 5, 1, 9, 9, 3, 0, 2, 0, 0];
            f.srcs = (0, 2);
            f.waiters = (1, 3);
        }
        "C02" => {
            f.timeouts = 1 + (r.chance(1, 4) as u8);
            f.w = [3, 6, 2, 10, 2, 5, 0, 2, 0, 0];
            f.degrade = 5;
        }
        "C03" => {
            f.timeouts = 2;
            f.w = [2, 6, 1, 10, 2, 3, 0, 2, 0, 0];
            f.eintr = 10;
            f.storm = 5;
            f.degrade = 6;
        }
        "C04" => {
            f.w = [5, 7, 2, 9, 1, 10, 0, 2, 0, 0];
            f.srcs = (1, 4);
        }
        "C05" => {
            f.w = [6, 8, 3, 8, 2, 9, 1, 1, 0, 0];
            f.srcs = (2, 6);
            f.src_hup = 3;
            f.src_pri = 2;
            f.shared_keys = 1;
        }
        "C06" => {
            f.modes = [8, 1, 0, 4];
            f.src_hup = 5;
            f.w = [4, 6, 1, 11, 2, 9, 0, 2, 0, 0];
            f.waiters = (1, 3);
        }
        "C07" => {
            f.modes = [3, 10, 1, 1];
            f.w = [4, 6, 2, 11, 1, 9, 0, 2, 0, 0];
        }
        "C08" => {
            f.modes = [2, 2, 8, 6];
            f.w = [4, 7, 2, 10, 1, 10, 0, 2, 0, 0];
        }
        "C09" => {
            f.w = [9, 9, 8, 5, 1, 3, 1, 1, 0, 0];
            f.modes = [5, 3, 3, 2];
            f.srcs = (1, 3);
            f.threads = (2, 4);
            f.errno = 8;
            f.bad_key = 2;
            f.file = 4;
        }
        "C10" => {
            f.w = [6, 8, 4, 6, 5, 5, 0, 1, 0, 0];
            f.threads = (3, 5);
            f.waiters = (1, 1);
        }
        "C11" => {
            f.w = [3, 4, 1, 14, 4, 6, 0, 2, 0, 0];
            f.threads = (3, 5);
            f.waiters = (2, 4);
            f.errno = 4;
        }
        "C12" => {
            f.eintr = 16;
            f.storm = 8;
            f.timeouts = 1;
        }
        "C13" => {
            f.degrade = 12;
            f.fail_new = 8;
            f.timeouts = 1;
            f.w[9] = 2;
        }
        "C14" => {
            f.w = [5, 6, 2, 8, 4, 6, 1, 1, 1, 3];
            f.pollers = (1, 2);
            f.degrade = 6;
            f.fail_new = 3;
            f.ops = (4, 14);
            f.errno = 4;
        }
        "C15" => {
            f.pollers = (2, 3);
            f.threads = (2, 5);
            f.srcs = (1, 3);
            f.w = [7, 7, 3, 9, 4, 8, 0, 2, 1, 1];
            f.waiters = (2, 3);
        }
        "C16" => {
            f.caps = 1;
            f.srcs = (3, 8);
            f.w = [8, 7, 1, 12, 2, 9, 0, 2, 0, 0];
            f.waiters = (1, 2);
        }
        "C17" => {
            f.pri = 8;
            f.hup = 8;
            f.src_hup = 6;
            f.src_pri = 6;
            f.w = [5, 7, 1, 9, 1, 12, 0, 1, 0, 0];
        }
        "C18" => {
            f.errno = 14;
            f.eintr = 8;
            f.file = 2;
            f.bad_key = 1;
            f.w = [8, 7, 4, 9, 5, 6, 0, 2, 0, 0];
        }
        "C19" => {
            f.pollers = (2, 3);
            f.nested = 16;
            f.w = [7, 7, 2, 9, 4, 8, 0, 2, 0, 0];
            f.srcs = (1, 3);
            f.waiters = (1, 2);
        }
        "C20" => {
            f.w = [9, 7, 8, 8, 1, 8, 4, 1, 0, 0];
            f.srcs = (2, 7);
            f.ops = (4, 14);
        }
        "C21" => {
            f.timeouts = 1;
            f.src_hup = 5;
            f.w = [4, 5, 2, 10, 2, 6, 0, 2, 0, 0];
            f.degrade = 5;
        }
        _ => {}
    }
    f
}

fn timeout(r: &mut Rng, profile: u8, role_waiter: bool) -> Option<Duration> {
    let w: &[u32] = match (profile, role_waiter) {
        // inf, zero, ns, sub-ms, ms, s, days, extreme
        (0, true) => &[10, 4, 0, 1, 4, 1, 0, 0],
        (0, false) => &[4, 8, 0, 1, 4, 1, 0, 0],
        (1, _) => &[4, 3, 2, 4, 6, 2, 1, 0],
        _ => &[3, 3, 3, 4, 5, 2, 3, 2],
    };
    Some(match r.weighted(w) {
        0 => return None,
        1 => Duration::ZERO,
        2 => Duration::from_nanos(r.range(1, 2000)),
        3 => Duration::from_nanos(r.range(1_000, 999_999)),
        4 => match r.below(3) {
            0 => Duration::from_millis(r.range(1, 20)),
            _ => Duration::from_nanos(r.range(1_000_000, 9_999_999)),
        },
        5 => Duration::from_nanos(r.log_range(10_000_000, 20_000_000_000)),
        6 => Duration::from_secs(r.range(1, 60) * 86400 + r.below(86400)),
        _ => *r.pick(&[
            Duration::MAX,
            Duration::from_secs(u64::MAX),
            Duration::from_secs(i64::MAX as u64),
            Duration::from_secs(i64::MAX as u64 / 2),
            Duration::new(i32::MAX as u64, 999_999_999),
            Duration::from_millis(i32::MAX as u64 + 1),
            Duration::from_millis(u32::MAX as u64 + 7),
            Duration::from_secs(u32::MAX as u64 + 3),
            Duration::from_nanos(1),
            Duration::from_millis(i32::MAX as u64),
            Duration::new(i32::MAX as u64 / 1000, 647_000_001),
            Duration::from_millis(1 << 32),
            Duration::from_micros(1 << 32),
            Duration::from_nanos(1 << 32),
            Duration::from_nanos(i32::MAX as u64 + 1),
            Duration::new(0, 999_999_999),
            Duration::new(1, 999_999_999),
            Duration::new(1 << 32, 5),
            Duration::from_nanos(u64::MAX),
        ]),
    })
}

fn key(r: &mut Rng, next: &mut usize, f: &Fam, s: usize, shared: bool) -> usize {
    if f.bad_key > 0 && r.chance(f.bad_key, 32) {
        return usize::MAX;
    }
    if shared {
        return 1_000 + s;
    }
    *next += 1;
    let n = *next;
    match r.below(12) {
        0 if n == 1 => 0,
        1 => usize::MAX - n,
        2 => (1usize << 32) + n,
        3 => (1usize << 63) + n,
        4 => u32::MAX as usize - n,
        _ => n,
    }
}

fn interest(r: &mut Rng, f: &Fam) -> u8 {
    let mut i = match r.weighted(&[6, 3, 5, 2]) {
        0 => I_R,
        1 => I_W,
        2 => I_R | I_W,
        _ => 0,
    };
    if f.pri > 0 && r.chance(f.pri, 16) {
        i |= I_PRI;
    }
    if f.hup > 0 && r.chance(f.hup, 16) {
        i |= I_HUP;
    }
    if r.chance(1, 4) {
        i |= I_DEFAULT_API;
    }
    if r.chance(1, 8) {
        i |= I_REUSE;
    }
    i
}

pub struct Gen {
    pub sc: Scenario,
    pub fam: Fam,
}

pub fn generate(prop: &str, r: &mut Rng) -> Gen {
    let mut f = family(prop, r);
    // Swarm: switch some kinds of operations off or up for this run.
    for (i, x) in f.w.iter_mut().enumerate() {
        *x = match r.below(8) {
            0 if i != 3 => 0,
            1 => *x * 3,
            _ => *x,
        };
    }
    for m in f.modes.iter_mut() {
        if r.chance(1, 5) {
            *m = 0;
        }
    }
    if f.modes.iter().all(|&m| m == 0) {
        f.modes[0] = 1;
    }
    let mut np = r.range(f.pollers.0, f.pollers.1) as usize;
    let mut nt = r.range(f.threads.0, f.threads.1) as usize;
    let mut ns = r.range(f.srcs.0, f.srcs.1) as usize;
    // Rarely something much bigger: many sources, long histories, or bursts of the same call.
    let big = if r.chance(1, 72) { 1 + r.below(4) as usize } else { 0 };
    let mut many = 0;
    match big {
        1 => {
            ns = r.range(10, 70) as usize;
            np = np.min(2);
            nt = nt.min(3);
            f.ops = (4, 30);
        }
        2 => {
            nt = r.range(1, 2) as usize;
            ns = ns.min(3);
            f.ops = (40, 220);
        }
        3 => {
            nt = nt.min(3);
            ns = ns.min(4);
            many = *r.pick(&[40, 40, 70, 70, 140, 140, 280, 280, 5000]);
        }
        4 => {
            nt = r.range(4, 8) as usize;
            if f.pollers.1 > 1 {
                // The kernel refuses to nest pollers deeply.
                np = r.range(3, if f.nested > 0 { 4 } else { 8 }) as usize;
                ns = ns.min(3);
            }
            f.ops = (2, 8);
            f.waiters.1 = nt as u64;
        }
        _ => {}
    }
    let (np, nt, ns) = (np, nt, ns);
    let mut srcs = Vec::new();
    for _ in 0..ns {
        let kind = if f.file > 0 && r.chance(f.file, 48) { SrcKind::File } else { SrcKind::Sock };
        let init = match r.below(6) {
            0 => 1,
            1 => 2,
            2 => 3,
            _ => 0,
        } | if r.chance(1, 3) { 4 } else { 0 };
        let (kind, init) = if f.filters > 0 && r.chance(f.filters, 16) {
            let n = srcs.len();
            match r.below(3) {
                0 => (SrcKind::Sig(*r.pick(&[1, 2, 10, 12, 15, 17, 20, 28])), 0),
                1 => (SrcKind::Proc(100 + n), r.below(3) as u8),
                _ => (SrcKind::Timer(*r.pick(&[1, 2, 5, 20, 300, 1000, 7000])), 0),
            }
        } else {
            (kind, init)
        };
        // One registration per signal.
        if srcs.iter().any(|s: &SrcDef| s.kind == kind && matches!(kind, SrcKind::Sig(_))) {
            srcs.push(SrcDef { kind: SrcKind::Sock, init });
            continue;
        }
        srcs.push(SrcDef { kind, init });
    }
    let nested = f.nested > 0 && np > 1 && r.chance(f.nested, 16);
    if nested {
        for q in 1..np {
            srcs.push(SrcDef { kind: SrcKind::Nested(q), init: 0 });
        }
    }
    let nsrc = srcs.len();
    let shared = f.shared_keys > 0 && r.chance(f.shared_keys, 16);
    let mut next_key = 0usize;
    // Which (p, s) are probably registered; which poller a nested source may go to.
    let mut reg = vec![vec![false; nsrc]; np];
    let ok_pair = |srcs: &[SrcDef], p: usize, s: usize| match srcs[s].kind {
        SrcKind::Nested(q) => p < q,
        _ => true,
    };
    let mode_of = |r: &mut Rng, f: &Fam, int: u8| {
        if int & I_DEFAULT_API != 0 {
            ONESHOT
        } else {
            r.weighted(&f.modes) as u8
        }
    };
    let mut init = Vec::new();
    for s in 0..nsrc {
        for p in 0..np {
            if ok_pair(&srcs, p, s) && (r.chance(5, 8) || matches!(srcs[s].kind, SrcKind::Nested(_))) {
                let mut int = interest(r, &f);
                if matches!(srcs[s].kind, SrcKind::Nested(_)) {
                    int |= I_R;
                }
                let mode = mode_of(r, &f, int);
                init.push(Act::Add { p, s, key: key(r, &mut next_key, &f, s, shared), int, mode });
                reg[p][s] = true;
            }
        }
    }
    if r.chance(1, 3) {
        // shuffle
        for i in (1..init.len()).rev() {
            let j = r.below(i as u64 + 1) as usize;
            init.swap(i, j);
        }
    }
    // Sources whose descriptor gets re-opened belong to one thread.
    let mut owner: Vec<Option<usize>> = vec![None; nsrc];
    if f.w[6] > 0 {
        for o in owner.iter_mut() {
            if r.chance(1, 2) {
                *o = Some(r.below(nt as u64) as usize);
            }
        }
    }
    let nw = r.range(f.waiters.0, f.waiters.1).min(nt as u64) as usize;
    let mut threads: Vec<(usize, Vec<Act>)> = (0..nt)
        .map(|_| {
            let cap = if big == 1 {
                *r.pick(&[0, 5, 16, 17, 33, 64, 100, 1025, 5000])
            } else if f.caps == 1 {
                r.range(1, 3) as usize
            } else {
                match r.below(8) {
                    0 => 1,
                    1 => r.range(2, 4) as usize,
                    2 => 0,
                    _ => 64,
                }
            };
            (cap, Vec::new())
        })
        .collect();
    let counts: Vec<usize> = (0..nt).map(|_| r.range(f.ops.0, f.ops.1) as usize).collect();
    let burst = r.chance(1, 3);
    let home: Vec<usize> = (0..nt).map(|_| r.below(np as u64) as usize).collect();
    loop {
        let left: Vec<usize> = (0..nt).filter(|&t| threads[t].1.len() < counts[t]).collect();
        if left.is_empty() {
            break;
        }
        let t = *r.pick(&left);
        let waiter = t < nw;
        let mut w = f.w;
        if waiter {
            w[3] *= 4;
        } else {
            w[3] /= 4;
        }
        if nsrc == 0 {
            w[0] = 0;
            w[1] = 0;
            w[2] = 0;
            w[5] = 0;
            w[6] = 0;
        }
        if w.iter().all(|&x| x == 0) {
            w[3] = 1;
        }
        let p = if r.chance(3, 4) { home[t] } else { r.below(np as u64) as usize };
        let k = r.weighted(&w);
        let n = if many > 0 && k != 3 && r.chance(1, 3) {
            // Only the cheap calls are repeated thousands of times.
            let n = r.range(1, if k == 4 || k == 5 { many } else { many.min(280) });
            many /= 2;
            n
        } else if burst {
            r.range(1, 3)
        } else {
            1
        };
        for _ in 0..n {
            let s = if nsrc > 0 { r.below(nsrc as u64) as usize } else { 0 };
            let a = match k {
                0 | 1 | 2 => {
                    if !ok_pair(&srcs, p, s) || owner[s].map_or(false, |o| o != t) {
                        continue;
                    }
                    // Mostly operations that make sense; sometimes ones that must fail.
                    let mut k = k;
                    if !r.chance(1, 6) {
                        if k == 0 && reg[p][s] {
                            k = 1;
                        } else if k != 0 && !reg[p][s] {
                            k = 0;
                        }
                    }
                    let int = interest(r, &f);
                    let mode = mode_of(r, &f, int);
                    let key = key(r, &mut next_key, &f, s, shared);
                    match k {
                        0 => {
                            reg[p][s] = true;
                            Act::Add { p, s, key, int, mode }
                        }
                        1 => Act::Mod { p, s, key, int, mode },
                        _ => {
                            reg[p][s] = false;
                            Act::Del { p, s }
                        }
                    }
                }
                3 => Act::Wait { p, to: timeout(r, f.timeouts, waiter) },
                4 => Act::Notify { p },
                5 => {
                    if matches!(srcs[s].kind, SrcKind::Sig(_) | SrcKind::Proc(_)) {
                        let a = *r.pick(&[SrcAct::Feed, SrcAct::Feed, SrcAct::TxOn, SrcAct::Eof]);
                        threads[t].1.push(Act::Src { s, a });
                        continue;
                    }
                    if srcs[s].kind != SrcKind::Sock {
                        continue;
                    }
                    let h = f.src_hup;
                    let q = f.src_pri;
                    let i = r.weighted(&[12, 7, h, h, h, h, h, h, q * 2, q, 5, 3]);
                    Act::Src { s, a: SRC_ACTS[i].0 }
                }
                6 => {
                    if owner[s] != Some(t) || srcs[s].kind != SrcKind::Sock {
                        continue;
                    }
                    for q in 0..np {
                        reg[q][s] = false;
                    }
                    Act::Reopen { s }
                }
                7 => Act::Sleep(r.log_range(100, 20_000_000)),
                8 => {
                    if np < 2 || p == 0 {
                        continue;
                    }
                    Act::Drop { p }
                }
                _ => Act::Temp { fail: if r.chance(f.fail_new, 16) { Some((r.below(12) as u32, r.below(30) as u8)) } else { None } },
            };
            threads[t].1.push(a);
        }
        // Guard against families that can generate nothing for a thread.
        if r.chance(1, 64) {
            threads[t].1.push(Act::Wait { p: home[t], to: Some(Duration::ZERO) });
        }
    }
    // Rarely a thread notifies and waits over and over, while the pipe for wake-ups has room for
    // all calls that can be under way, but not for all there ever were: a long history, scaled down.
    let mut pipe_cap = *r.pick(&[65536, 65536, 4096]);
    if f.w[4] > 0 && big == 0 && !crate::oracle::VITA && r.chance(1, 40) {
        pipe_cap = nt + 24;
        let t = r.below(nt as u64) as usize;
        let at = r.below(threads[t].1.len() as u64 + 1) as usize;
        let p = home[t];
        let round = [Act::Notify { p }, Act::Wait { p, to: Some(Duration::ZERO) }];
        let acts = round.iter().cloned().cycle().take(2 * (nt + 34));
        threads[t].1.splice(at..at, acts);
    }
    let enos = [libc::ENOSYS, libc::EPERM, libc::EINVAL, libc::EMFILE, libc::ENODEV];
    let mut degrade = Degrade::default();
    if f.degrade > 0 && r.chance(f.degrade, 16) {
        if r.chance(1, 2) {
            degrade.timerfd = *r.pick(&enos);
        }
        if r.chance(1, 2) {
            degrade.eventfd = *r.pick(&enos);
        }
        if r.chance(1, 2) {
            degrade.pipe2 = *r.pick(&enos);
        }
    }
    let fail_new = if f.fail_new > 0 && r.chance(f.fail_new, 16) {
        Some((r.below(np as u64) as usize, r.below(12) as u32, r.below(30) as u8))
    } else {
        None
    };
    let sc = Scenario {
        pollers: np,
        srcs,
        init,
        threads,
        jan_cap: if f.caps == 1 { r.range(1, 4) as usize } else { *r.pick(&[64, 64, 0, 3, 1]) },
        drain: *r.pick(&[0, 1, 2, 2]),
        cost: *r.pick(&[0, 50, 100, 300, 1000, 3000]),
        hash_seed: r.next() | 1,
        degrade,
        fail_new,
        pipe_cap,
        fd_base: *r.pick(&[1000, 1000, 1000, 1000, 3, 3, 0, 1, 250, 1020, 4090, 65530, 1 << 20]),
    };
    Gen { sc, fam: f }
}
