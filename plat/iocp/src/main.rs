//! Deterministic simulation of `polling` with fault injection.
//!
//!   polsim run --prop C01 --seed 1 --from 0 --step 8 --secs 20 [--max N] --out DIR --worker K
//!   polsim seed --prop C01 --run SEED          execute one seed with its log
//!   polsim replay FILE                         re-execute a replay file; exit 1 if the violation happens again
//!   polsim determinism --prop C01 --seed 1 --count N

mod atom;
#[path = "../../../sim/src/coro.rs"]
mod coro;
mod exec;
mod kernel;
mod minimize;
mod oracle;
#[path = "../../../sim/src/rng.rs"]
mod rng;
mod runner;
mod scenario;
mod sim;
#[allow(non_snake_case)]
mod win;

use std::collections::BTreeMap;
use crate::rng::Set;
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::{Duration, Instant};

use runner::*;
use scenario::Scenario;
use sim::{Fault, Mode, Trace};

mod heap;

#[global_allocator]
static ALLOC: heap::Alloc = heap::Alloc;

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

fn num(args: &[String], k: &str, d: u64) -> u64 {
    arg(args, k).map_or(d, |v| v.parse().unwrap_or_else(|_| panic!("bad {}", k)))
}

fn trace_text(t: &Trace) -> String {
    let mut o = String::new();
    for (k, v) in &t.switch {
        let _ = writeln!(o, "switch {} {}", k, v);
    }
    for (k, v) in &t.stall {
        let _ = writeln!(o, "stall {} {}", k, v);
    }
    for (k, v) in &t.fault {
        match v {
            Fault::Intr(ns) => {
                let _ = writeln!(o, "fault {} intr {}", k, ns);
            }
            Fault::Errno(e) => {
                let _ = writeln!(o, "fault {} errno {}", k, e);
            }
        }
    }
    o
}

fn replay_text(prop: &str, seed: u64, rule: &str, msg: &str, sc: &Scenario, t: Option<&Trace>, o: Option<&Outcome>) -> String {
    let mut f = String::new();
    let _ = writeln!(f, "polsim-replay 1");
    let _ = writeln!(f, "config {}", config_name());
    let _ = writeln!(f, "property {}", prop);
    let _ = writeln!(f, "seed {}", seed);
    let _ = writeln!(f, "rule {}", rule);
    let _ = writeln!(f, "message {}", msg.replace('\n', " "));
    if let Some(o) = o {
        let _ = writeln!(f, "hash {:016x} steps {}", o.ihash, o.steps);
    }
    let _ = writeln!(f, "scenario-begin");
    f += &sc.text();
    let _ = writeln!(f, "scenario-end");
    if let Some(t) = t {
        let _ = writeln!(f, "trace");
        f += &trace_text(t);
    }
    if let Some(o) = o {
        let _ = writeln!(f, "end");
        for l in &o.log {
            let _ = writeln!(f, "# {}", l);
        }
    }
    f
}

fn parse_replay(t: &str) -> (BTreeMap<String, String>, Scenario, Option<Trace>) {
    let mut kv = BTreeMap::new();
    let mut sc = String::new();
    let mut trace: Option<Trace> = None;
    let mut inside = false;
    for l in t.lines() {
        if l.starts_with('#') || l == "end" {
            continue;
        }
        if l == "scenario-begin" {
            inside = true;
        } else if l == "scenario-end" {
            inside = false;
        } else if inside {
            sc += l;
            sc.push('\n');
        } else if l == "trace" {
            trace = Some(Trace::default());
        } else if let Some(t) = trace.as_mut() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w.as_slice() {
                ["switch", a, b] => {
                    t.switch.insert(a.parse().unwrap(), b.parse().unwrap());
                }
                ["stall", a, b] => {
                    t.stall.insert(a.parse().unwrap(), b.parse().unwrap());
                }
                ["fault", a, "intr", b] => {
                    t.fault.insert(a.parse().unwrap(), Fault::Intr(b.parse().unwrap()));
                }
                ["fault", a, "errno", b] => {
                    t.fault.insert(a.parse().unwrap(), Fault::Errno(b.parse().unwrap()));
                }
                _ => {}
            }
        } else if let Some((k, v)) = l.split_once(' ') {
            kv.insert(k.to_string(), v.to_string());
        }
    }
    (kv, Scenario::parse(&sc).expect("scenario"), trace)
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Ends the process if one run burns this much processor time (a loop without any scheduling point).
fn cpu_limit(secs: i64) {
    unsafe {
        let v = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: secs, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_PROF, &v, std::ptr::null_mut());
    }
}

fn cmd_run(args: &[String]) -> i32 {
    let prop = arg(args, "--prop").expect("--prop");
    let base = num(args, "--seed", 1);
    let from = num(args, "--from", 0);
    let step = num(args, "--step", 1);
    let secs = num(args, "--secs", 10);
    let max = num(args, "--max", u64::MAX);
    let out = arg(args, "--out").expect("--out");
    let worker = num(args, "--worker", 0);
    let min_secs = num(args, "--minimize", 40);
    let t0 = Instant::now();
    let mut status = std::fs::File::create(format!("{}/status.{}.{}", out, config_name(), worker)).expect("status file");
    let mut total: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes: Set<u64> = Set::default();
    let mut pairs: Set<u64> = Set::default();
    let mut unrepeatable = 0u64;
    let mut other: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let (mut runs, mut steps, mut switches, mut sim_ns, mut multi) = (0u64, 0u64, 0u64, 0u128, 0u64);
    let mut slowest = (0f64, 0u64);
    let mut idx = from;
    // For surveys by hand only.
    let ignore: Vec<String> = std::env::var("POLSIM_IGNORE").unwrap_or_default().split(',').map(|x| x.to_string()).collect();
    let mut code = 0;
    let mut viol = String::from("null");
    // Made by the first worker that finds something.
    let stop = std::path::PathBuf::from(format!("{}/stop", out));
    while runs < max && t0.elapsed() < Duration::from_secs(secs) {
        let seed = run_seed(base, &prop, idx);
        idx += step;
        use std::io::Seek;
        let _ = status.rewind();
        let _ = status.write_all(format!("{:020}\n", seed).as_bytes());
        cpu_limit(60);
        if runs % 16 == 0 {
            if stop.exists() {
                break;
            }
        }
        let (sc, fam, mode) = plan(&prop, seed);
        let t1 = Instant::now();
        let o = execute(&sc, mode, false);
        let took = t1.elapsed().as_secs_f64();
        if took > slowest.0 {
            slowest = (took, seed);
        }
        runs += 1;
        steps += o.steps;
        switches += o.switches;
        sim_ns += o.sim_ns as u128;
        multi += (sc.threads.len() > 1) as u64;
        if o.switches > 0 {
            hashes.insert(o.ihash);
        }
        pairs.extend(&o.pairs);
        for (k, v) in &o.stats.m {
            *total.entry(k).or_insert(0) += v;
        }
        if let Some(v) = &o.viol {
            if (v.counts_for(&prop) || v.rule == "harness") && !ignore.iter().any(|x| x == v.rule || x == "*") {
                cpu_limit(0);
                // The same seed must do exactly the same again.
                let again = execute(&sc, plan(&prop, seed).2, false);
                let same = again.ihash == o.ihash && again.steps == o.steps && again.viol.as_ref().map(|x| x.rule) == Some(v.rule);
                if v.rule == "harness" || !same {
                    eprintln!("harness error: seed {} rule {} ({}), repeatable: {}", seed, v.rule, v.msg, same);
                    unrepeatable += 1;
                    if unrepeatable < 20 {
                        continue;
                    }
                    code = 2;
                    viol = format!(
                        "{{\"rule\":{},\"message\":{},\"seed\":{},\"replay\":null,\"repeatable\":{}}}",
                        json_str(v.rule),
                        json_str(&v.msg),
                        seed,
                        same
                    );
                    break;
                }
                let _ = std::fs::File::create(&stop);
                let mut m = minimize::Min {
                    rule: v.rule,
                    fam,
                    until: Instant::now() + Duration::from_secs(min_secs),
                    tries: 0,
                };
                let exact = execute(&sc, Mode::Replay(o.trace.clone()), false);
                let (msc, mt) = if matches!(&exact.viol, Some(x) if x.rule == v.rule) {
                    m.run(sc.clone(), o.trace.clone())
                } else {
                    (sc.clone(), o.trace.clone())
                };
                let fin = execute(&msc, Mode::Replay(mt.clone()), true);
                let path = format!("{}/{}.{}.{}.replay", out, prop, config_name(), seed);
                let (txt, msg) = match &fin.viol {
                    Some(x) => (replay_text(&prop, seed, x.rule, &x.msg, &msc, Some(&mt), Some(&fin)), x.msg.clone()),
                    None => (replay_text(&prop, seed, v.rule, &v.msg, &sc, None, None), v.msg.clone()),
                };
                std::fs::write(&path, txt).expect("replay file");
                viol = format!(
                    "{{\"rule\":{},\"message\":{},\"seed\":{},\"replay\":{},\"repeatable\":true,\"minimise_tries\":{},\"ops\":{}}}",
                    json_str(v.rule),
                    json_str(&msg),
                    seed,
                    json_str(&path),
                    m.tries,
                    fin.ops.len()
                );
                code = 1;
                break;
            }
            let e = other.entry(v.rule.to_string()).or_insert((0, seed, v.msg.clone()));
            e.0 += 1;
        }
    }
    cpu_limit(0);
    let mut j = String::from("{");
    let _ = write!(
        j,
        "\"prop\":{},\"config\":{},\"worker\":{},\"runs\":{},\"steps\":{},\"switches\":{},\"sim_ns\":{},\"multi\":{},\"distinct\":{},\"wall\":{:.3},\"from\":{},\"next\":{},\"unrepeatable\":{},\"violation\":{},",
        json_str(&prop), json_str(config_name()), worker, runs, steps, switches, sim_ns, multi, hashes.len(), t0.elapsed().as_secs_f64(), from, idx, unrepeatable, viol
    );
    let _ = write!(j, "\"slowest\":[{:.3},{}],", slowest.0, slowest.1);
    j += "\"stats\":{";
    for (i, (k, v)) in total.iter().enumerate() {
        let _ = write!(j, "{}{}:{}", if i > 0 { "," } else { "" }, json_str(k), v);
    }
    j += "},\"other\":{";
    for (i, (k, v)) in other.iter().enumerate() {
        let _ = write!(j, "{}{}:[{},{},{}]", if i > 0 { "," } else { "" }, json_str(k), v.0, v.1, json_str(&v.2));
    }
    j += "}}";
    std::fs::write(format!("{}/result.{}.{}.json", out, config_name(), worker), &j).expect("result file");
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{}/hashes.{}.{}", out, config_name(), worker), hb).expect("hash file");
    let pb: Vec<u8> = pairs.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(format!("{}/pairs.{}.{}", out, config_name(), worker), pb).expect("pair file");
    code
}

fn cmd_seed(args: &[String]) -> i32 {
    let prop = arg(args, "--prop").expect("--prop");
    let seed = match arg(args, "--run") {
        Some(v) => v.parse().expect("seed"),
        None => run_seed(num(args, "--seed", 1), &prop, num(args, "--index", 0)),
    };
    let (sc, _, mode) = plan(&prop, seed);
    print!("{}", sc.text());
    let _ = std::io::stdout().flush();
    let o = execute(&sc, mode, true);
    for l in &o.log {
        println!("{}", l);
    }
    println!("steps {} switches {} hash {:016x}", o.steps, o.switches, o.ihash);
    if args.iter().any(|a| a == "--trace") {
        print!("{}", trace_text(&o.trace));
    }
    match o.viol {
        Some(v) => {
            println!("VIOLATED {}: {}", v.rule, v.msg);
            1
        }
        None => 0,
    }
}

fn cmd_crashfile(args: &[String]) -> i32 {
    // A replay file for a seed whose run ends the process.
    let prop = arg(args, "--prop").expect("--prop");
    let seed: u64 = arg(args, "--run").expect("--run").parse().expect("seed");
    let msg = arg(args, "--message").unwrap_or_default();
    let (sc, _, _) = plan(&prop, seed);
    print!("{}", replay_text(&prop, seed, "crash", &msg, &sc, None, None));
    0
}

fn cmd_replay(args: &[String]) -> i32 {
    let text = std::fs::read_to_string(args.first().expect("file")).expect("readable replay file");
    let (kv, sc, trace) = parse_replay(&text);
    if kv.get("config").map(|s| s.as_str()) != Some(config_name()) {
        eprintln!("this build simulates {}, the file is for {:?}", config_name(), kv.get("config"));
        return 2;
    }
    let prop = kv.get("property").cloned().unwrap_or_default();
    let mode = match trace {
        Some(t) => Mode::Replay(t),
        None => plan(&prop, kv["seed"].parse().expect("seed")).2,
    };
    cpu_limit(60);
    let o = execute(&sc, mode, true);
    for l in &o.log {
        println!("{}", l);
    }
    println!("hash {:016x} steps {}", o.ihash, o.steps);
    match &o.viol {
        Some(v) => {
            println!("VIOLATED {}: {}", v.rule, v.msg);
            let want = kv.get("hash").map(|h| h.split(' ').next().unwrap_or("").to_string());
            if let Some(w) = want {
                println!("{}", if w == format!("{:016x}", o.ihash) { "same execution as recorded" } else { "NOT the recorded execution" });
            }
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

fn cmd_determinism(args: &[String]) -> i32 {
    let prop = arg(args, "--prop").expect("--prop");
    let base = num(args, "--seed", 1);
    let n = num(args, "--count", 200);
    let mut bad = 0;
    for i in 0..n {
        let seed = run_seed(base, &prop, i);
        let (sc, _, mode) = plan(&prop, seed);
        let a = execute(&sc, mode, true);
        let (_, _, mode) = plan(&prop, seed);
        let b = execute(&sc, mode, true);
        let c = execute(&sc, Mode::Replay(a.trace.clone()), true);
        // And through text.
        let sc2 = Scenario::parse(&sc.text()).expect("scenario text");
        let d = execute(&sc2, Mode::Replay(a.trace.clone()), true);
        for (n, x) in [("repeat", &b), ("replay", &c), ("text", &d)] {
            if x.log != a.log || x.ihash != a.ihash || x.steps != a.steps {
                bad += 1;
                println!("seed {} differs on {} (steps {} {})", seed, n, a.steps, x.steps);
                if let Some(k) = (0..a.log.len().min(x.log.len())).find(|&k| a.log[k] != x.log[k]) {
                    println!("  {}\n  {}", a.log[k], x.log[k]);
                }
            }
        }
    }
    println!("{} seeds executed four times each, {} differences", n, bad);
    (bad > 0) as i32
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("POLSIM_PANIC").is_some() {
            eprintln!("{}", i);
        }
    }));
    // The functions of ntdll are looked up once per process: not part of any run.
    drop(pollwrap::new());
    let args: Vec<String> = std::env::args().skip(1).collect();
    let rest = &args[1.min(args.len())..];
    let code = match args.first().map(|s| s.as_str()) {
        Some("run") => cmd_run(rest),
        Some("seed") => cmd_seed(rest),
        Some("crashfile") => cmd_crashfile(rest),
        Some("replay") => cmd_replay(rest),
        Some("determinism") => cmd_determinism(rest),
        Some("config") => {
            println!("{}", config_name());
            0
        }
        _ => {
            eprintln!("usage: polsim run|seed|replay|determinism ...");
            2
        }
    };
    std::process::exit(code);
}
