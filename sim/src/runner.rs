//! One run = one seed = one exactly repeatable execution.

use crate::exec::{build, World};
use crate::oracle::Viol;
use crate::rng::{hash_bytes, mix, Rng, Set};
use crate::scenario::{generate, Fam, Scenario};
use crate::sim::{self, Mode, Sim, Stats, Strategy, Trace};

pub struct Outcome {
    pub viol: Option<Viol>,
    pub trace: Trace,
    pub ihash: u64,
    pub pairs: Set<u64>,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub stats: Stats,
    pub log: Vec<String>,
    pub ops: Vec<String>,
}

/// Executes a scenario on a fresh OS thread (so that thread-local state of the standard library starts afresh).
pub fn execute(sc: &Scenario, mode: Mode, log: bool) -> Outcome {
    let sc = sc.clone();
    std::thread::scope(|scope| {
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn_scoped(scope, move || {
                let mut w = World::new(sc.clone());
                w.sc = sc.clone();
                let mut sim = Box::new(Sim::new(mode, w));
                sim.cost = sc.cost;
                sim.rand_state = sc.hash_seed;
                sim.k.pipe_cap = sc.pipe_cap;
                sim.k.fd_base = sc.fd_base;
                if log {
                    sim.log = Some(Vec::new());
                }
                sim::install(&mut *sim);
                build(&sc);
                sim::run();
                sim::install(std::ptr::null_mut());
                let ops = if log || sim.viol.is_some() { sim.w.hist.ops.iter().map(|o| o.text()).collect() } else { Vec::new() };
                Outcome {
                    viol: sim.viol.take(),
                    trace: std::mem::take(&mut sim.trace),
                    ihash: sim.ihash,
                    pairs: std::mem::take(&mut sim.pairs),
                    steps: sim.steps,
                    switches: sim.nswitch,
                    sim_ns: sim.now - sim.t0,
                    stats: std::mem::take(&mut sim.stats),
                    log: sim.log.take().unwrap_or_default(),
                    ops,
                }
                // Abandoned coroutines (after a violation) leak what their frames own; pollers must not run their drop
                // code outside the simulation.
                .leak_world(&mut sim)
            })
            .expect("spawn")
            .join()
            .expect("run thread")
    })
}

impl Outcome {
    fn leak_world(self, sim: &mut Box<Sim>) -> Outcome {
        for p in sim.w.pollers.iter_mut() {
            if let Some(h) = p.h.take() {
                std::mem::forget(h);
            }
        }
        for t in sim.threads.iter_mut() {
            if let Some(b) = t.take_body() {
                std::mem::forget(b);
            }
        }
        self
    }
}

pub fn config_name() -> &'static str {
    if cfg!(polsim_kqueue_pipe) {
        "kqueue-pipe"
    } else if cfg!(polsim_port) {
        "port"
    } else if cfg!(polsim_kqueue) {
        "kqueue"
    } else if cfg!(polsim_esp) {
        "poll-esp"
    } else if cfg!(polsim_hermit) {
        "poll-hermit"
    } else if cfg!(polsim_vita) {
        "poll-vita"
    } else if cfg!(polsim_haiku) {
        "poll-haiku"
    } else if cfg!(polsim_redox) {
        "epoll-redox"
    } else if cfg!(polling_test_poll_backend) {
        "poll"
    } else if cfg!(polling_test_epoll_pipe) {
        "epoll-pipe"
    } else {
        "epoll"
    }
}

pub fn run_seed(base: u64, prop: &str, idx: u64) -> u64 {
    mix(hash_bytes(base ^ 0x5eed, prop.as_bytes()) ^ hash_bytes(7, config_name().as_bytes()) ^ mix(idx))
}

pub fn strategy(r: &mut Rng, f: &Fam, sc: &Scenario) -> Strategy {
    let nops: u64 = sc.threads.iter().map(|t| t.1.len() as u64).sum();
    let est = (20 + (sc.init.len() as u64) * 6 + nops * if crate::oracle::POLL_BACKEND { 22 } else { 14 }) as u64;
    let kind = *r.pick(&[0u8, 0, 1, 1, 2]);
    let npts = match kind {
        0 => 0,
        1 => r.range(0, 5),
        _ => r.range(1, 8),
    };
    let points = (0..npts).map(|_| r.below(est) as u32).collect();
    let nst = if r.chance(1, 3) { r.range(1, 3) } else { 0 };
    let stalls = (0..nst).map(|_| (r.below(est) as u32, r.log_range(200, 40_000_000))).collect();
    let storm = r.chance(f.storm, 16);
    let p_intr = if storm {
        1000
    } else if r.chance(f.eintr, 16) {
        *r.pick(&[40, 150, 500])
    } else {
        0
    };
    Strategy {
        kind,
        switch_den: *r.pick(&[1, 2, 2, 4, 8, 20, 60]),
        points,
        stalls,
        p_intr,
        p_spurious: if r.chance(1, 8) { 200 } else { 0 },
        p_errno: if r.chance(f.errno, 16) { *r.pick(&[60, 250, 700]) } else { 0 },
        max_faults: if storm { 40 } else { r.range(1, 6) as u32 },
    }
}

/// Everything a seed stands for.
pub fn plan(prop: &str, seed: u64) -> (Scenario, Fam, Mode) {
    let mut g = Rng::new(seed);
    let gen = generate(prop, &mut g);
    let mode = search_mode(mix(seed ^ 0x51), &gen.fam, &gen.sc);
    (gen.sc, gen.fam, mode)
}

pub fn search_mode(seed: u64, f: &Fam, sc: &Scenario) -> Mode {
    let mut r = Rng::new(seed);
    let strat = strategy(&mut r, f, sc);
    Mode::Search { rng: Rng::new(r.next()), frng: Rng::new(r.next()), strat }
}
