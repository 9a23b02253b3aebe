#!/usr/bin/env python3
"""Decides one property by seeded simulation: builds the simulator around /repo's working tree in the configurations the
property is about, searches with one worker per core, and writes the evidence.

  check.py C01              quick, or thorough with VERIF_TIER=thorough; seed from VERIF_SEED
  check.py replay FILE      re-executes a replay file against /repo's working tree
"""
import fcntl
import glob
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
LINUX = ["epoll", "poll", "epoll-pipe"]
KQUEUE = ["kqueue", "kqueue-pipe"]
OTHER = {"C22": KQUEUE, "C23": ["iocp"], "C25": ["iocp"], "C26": ["iocp"], "C27": KQUEUE, "C28": ["port"],
         "C29": ["poll-esp", "poll-hermit", "poll-vita", "poll-haiku", "epoll-redox"]}
SEARCH = {"quick": 40, "thorough": 600}
MINIMISE = 40

REAL = {
    "linux": [
        "polling::Poller, Events, Event (src/lib.rs, src/os.rs), unmodified",
        "the backend: src/epoll.rs (eventfd or pipe notifier) or src/poll.rs, by configuration, unmodified",
        "rustix's wrappers, the standard library's Mutex, Condvar, Instant, HashMap, OwnedFd",
    ],
    "iocp": [
        "polling::Poller, Events, Event (src/lib.rs, src/os.rs, src/os/iocp.rs), unmodified",
        "the backend: src/iocp/mod.rs, afd.rs and port.rs, unmodified but for the predicates inside cfg(...) and the path of "
        "std::os::windows (plat/gen.py)",
        "windows-sys's declarations, concurrent-queue, the standard library's RwLock, Mutex, Instant, HashMap",
    ],
    "kqueue": [
        "polling::Poller, Events, Event (src/lib.rs, src/os.rs, src/os/kqueue.rs), unmodified",
        "the backend: src/kqueue.rs with the EVFILT_USER or the socket pair notifier, by configuration, unmodified but for "
        "the predicates inside cfg(...) (plat/gen.py)",
        "rustix's wrappers and its event/kqueue.rs, the standard library's Mutex, Instant, HashSet, OwnedFd, UnixStream",
    ],
    "port": [
        "polling::Poller, Events, Event (src/lib.rs, src/os.rs), unmodified",
        "the backend: src/port.rs, unmodified but for the predicates inside cfg(...) (plat/gen.py)",
        "rustix's wrappers and its event/port.rs, the standard library's Mutex, Instant, OwnedFd",
    ],
    "other-poll": [
        "polling::Poller, Events, Event (src/lib.rs, src/os.rs), unmodified",
        "the backend: src/poll.rs with the eventfd of ESP-IDF, the calls of Hermit, or the pipe of Vita and of Haiku, or "
        "src/epoll.rs with Redox's pipe and no timer, by configuration, unmodified but for the predicates inside cfg(...) "
        "and the path of std::os::hermit (plat/gen.py)",
        "rustix's wrappers, the standard library's Mutex, Condvar, Instant, HashMap, OwnedFd",
    ],
}
STUB = {
    "other-poll": [
        "kernel: poll, epoll, eventfd (never blocking on ESP-IDF), pipe (data that arrives late on Vita), fcntl, read, write, "
        "close (sim/src/kernel.rs); hermit-abi (plat/crates/polhermit)",
        "I/O sources: readiness models of sockets and pipes driven by the scenario",
        "threads: coroutines switched at every system call and atomic access; futex; clocks; getrandom",
    ],
    "linux": [
        "kernel: epoll, poll, eventfd, timerfd, pipe, fcntl, read, write, close, dup (sim/src/kernel.rs)",
        "I/O sources: readiness models of sockets and pipes driven by the scenario",
        "threads: coroutines switched at every system call and atomic access; futex; clocks; getrandom",
    ],
    "iocp": [
        "Windows: completion ports, AFD polls, cancellation, wait registrations and their pool threads, handles "
        "(plat/iocp/src/kernel.rs, win.rs)",
        "I/O sources: readiness models of sockets, layered sockets and events driven by the scenario",
        "std::os::windows (plat/crates/polwin)",
        "threads: coroutines switched at every system call and atomic access; futex; clocks; getrandom",
    ],
    "kqueue": [
        "kernel: kqueue, kevent with the filters READ, WRITE, USER, SIGNAL, PROC and TIMER, fcntl, socketpair, send, recv, "
        "close (sim/src/kq.rs, kernel.rs)",
        "I/O sources: readiness models of sockets; signals, processes and timers driven by the scenario",
        "threads: coroutines switched at every system call and atomic access; futex; clocks; getrandom",
    ],
    "port": [
        "kernel: port_create, port_associate, port_dissociate, port_getn, port_send, fcntl, close (sim/src/port.rs, kernel.rs)",
        "I/O sources: readiness models of sockets and nested ports driven by the scenario",
        "threads: coroutines switched at every system call and atomic access; futex; clocks; getrandom",
    ],
}
TRUST = {
    "linux": "sim/src/kernel.rs models the Linux calls faithfully where the properties look (\"polsim conform\" compares "
             "it with the running kernel, see DESIGN.md)",
    "iocp": "plat/iocp/src/kernel.rs and win.rs model Windows as documented and as the code's own comments describe AFD: "
            "there is no Windows here to compare with",
    "kqueue": "sim/src/kq.rs models kqueue after FreeBSD's kern_event.c, for both notifiers: there is no BSD here to "
              "compare with",
    "other-poll": "ESP-IDF, Hermit, Vita, Haiku and Redox behave as the code's comments and hermit-abi's documentation say, otherwise like "
                  "the model of Linux: there is none of them here to compare with",
    "port": "sim/src/port.rs models event ports after illumos' portfs and its manual pages: there is no illumos here to "
            "compare with",
}


def group(c):
    return "other-poll" if c.startswith("poll-") or c == "epoll-redox" else c if c in ("iocp", "port") else "kqueue" if c in KQUEUE else "linux"


def configs(prop):
    return OTHER.get(prop, LINUX)


def binary(c):
    if group(c) == "linux":
        return f"{HERE}/sim/target/{c}/release/polsim"
    return f"{HERE}/plat/target/{c}/release/platsim"


def build(g, confs):
    os.makedirs(f"{HERE}/out", exist_ok=True)
    with open(f"{HERE}/out/build.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        script = [f"{HERE}/build.sh"] if g == "linux" else [f"{HERE}/plat/build.sh", f"{HERE}/plat/target"] + confs
        r = subprocess.run(script, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout)
        print("the simulator does not build against /repo")
        sys.exit(2)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def ended_how(rc):
    if rc == -signal.SIGPROF:
        return "the run spins: 60 s of processor time without an end"
    if rc < 0:
        return f"the process died of signal {-rc} ({signal.Signals(-rc).name})"
    return f"the process ended with {rc}"


def rerun(c, prop, seed):
    """How the run of one seed ends in a process of its own."""
    try:
        return subprocess.run(
            [binary(c), "seed", "--prop", prop, "--run", str(seed)],
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120, preexec_fn=limits,
        ).returncode
    except subprocess.TimeoutExpired:
        return "hangs"


def known_findings():
    """known: property=<id> config=<c or *> rule=<rule> match=<regular expression over the message>"""
    out = []
    try:
        for l in open(f"{HERE}/known-findings.txt"):
            m = re.match(r"known: property=(\S+) config=(\S+) rule=(\S+) match=(.*)$", l)
            if m:
                out.append(m.groups())
    except FileNotFoundError:
        pass
    return out


def replay(path):
    c = next(l.split()[1] for l in open(path) if l.startswith("config "))
    build(group(c), [c])
    r = subprocess.run([binary(c), "replay", path], preexec_fn=limits)
    if r.returncode < 0:
        print(ended_how(r.returncode))
        return 1
    return r.returncode


def crash_replay(c, prop, seed, how, out):
    path = f"{out}/{prop}.{c}.{seed}.replay"
    r = subprocess.run([binary(c), "crashfile", "--prop", prop, "--run", str(seed), "--message", how],
                       stdout=subprocess.PIPE, text=True)
    open(path, "w").write(r.stdout)
    return path


def u64s(pattern):
    s = set()
    for f in glob.glob(pattern):
        b = open(f, "rb").read()
        s.update(struct.unpack(f"<{len(b) // 8}Q", b))
    return s


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in SEARCH else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    secs = int(os.environ.get("POLSIM_SECS", SEARCH[tier]))
    t0 = time.time()
    confs = configs(prop)
    g = group(confs[0])
    build(g, confs)
    t_build = time.time() - t0
    out = f"{HERE}/out/{prop}.{tier}"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)

    # The executions must be repeatable: from the seed, from the recorded trace and from the text of the scenario.
    same, differ = 0, 0
    for c in confs:
        n = 60 // len(confs)
        r = subprocess.run([binary(c), "determinism", "--prop", prop, "--seed", str(seed), "--count", str(n)],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=limits)
        m = re.search(r"(\d+) seeds executed four times each, (\d+) differences", r.stdout)
        if m:
            same += int(m[1])
            differ += int(m[2])
            if int(m[2]):
                print(r.stdout)

    cores = os.cpu_count() or 4
    plan = [confs[i % len(confs)] for i in range(max(len(confs), cores))]
    procs = []
    for k, c in enumerate(plan):
        idx = plan[:k].count(c)
        p = subprocess.Popen(
            [binary(c), "run", "--prop", prop, "--seed", str(seed), "--from", str(idx), "--step", str(plan.count(c)),
             "--secs", str(secs), "--minimize", str(MINIMISE), "--out", out, "--worker", str(k)],
            stdout=subprocess.DEVNULL, stderr=open(f"{out}/stderr.{k}", "w"), preexec_fn=limits)
        procs.append((k, c, p))
    until = time.time() + secs + 3 * MINIMISE + 60
    crashes, errors = [], []
    for k, c, p in procs:
        try:
            rc = p.wait(timeout=max(1, until - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "hangs"
        if rc in (0, 1):
            continue
        err = open(f"{out}/stderr.{k}").read()[-400:]
        if rc == 2:
            errors.append(f"worker {k} ({c}): {err}")
            continue
        # The run in progress ended the process: does it do so again?
        run = int((open(f"{out}/status.{c}.{k}").read() or "0").split()[0])
        again = rerun(c, prop, run)
        if again == rc or (again not in (0, 1) and rc != -signal.SIGKILL):
            how = ended_how(rc) if isinstance(rc, int) else "the run does not end"
            crashes.append((c, run, how + (f"; {err}" if err.strip() else "")))
        else:
            errors.append(f"worker {k} ({c}), seed {run}: {rc}, then {again}: {err}")

    results = [json.load(open(f)) for f in sorted(glob.glob(f"{out}/result.*.json"))]
    viols = [(r["config"], r["violation"]) for r in results if r["violation"] and r["violation"].get("replay")]
    for r in results:
        if r["unrepeatable"] and not (r["violation"] and r["violation"].get("replay")):
            errors.append(f"{r['config']}: {r['unrepeatable']} violations did not repeat")
    known, new = [], []
    for c, v in viols:
        hit = next((k for k in known_findings() if k[0] == prop and k[1] in (c, "*") and k[2] == v["rule"]
                    and re.search(k[3], v["message"])), None)
        (known if hit else new).append((c, v))

    total = lambda k: sum(r[k] for r in results)
    stats = {}
    for r in results:
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
    hashes = sum(len(u64s(f"{out}/hashes.{c}.*")) for c in confs)
    pairs = {c: len(u64s(f"{out}/pairs.{c}.*")) for c in confs}
    for f in glob.glob(f"{out}/hashes.*") + glob.glob(f"{out}/pairs.*"):
        os.remove(f)
    busy = sum(r["wall"] for r in results) or 1
    search = max([r["wall"] for r in results] or [1])
    samples = []
    for c in confs:
        r = subprocess.run([binary(c), "seed", "--prop", prop, "--seed", str(seed), "--index", str(confs.index(c))],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        l = r.stdout.splitlines()
        samples.append({"config": c, "scenario_and_log": l[:90] + (["..."] + l[-3:] if len(l) > 93 else [])})
    other = {}
    for r in results:
        for k, v in r["other"].items():
            other.setdefault(k, [0, v[2]])[0] += v[0]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total("runs"),
            "distinct_nontrivial": hashes,
            "rule": "One evaluation is one simulated run: a scenario (threads, registrations, I/O activity, timeouts) and a "
                    "schedule with faults, all drawn from one seed. Non-trivial: at least one simulated thread was "
                    "preempted or blocked while another ran. Distinct: the hash over every switch (which thread, at "
                    "which decision) and every event of the run's history differs from all others of its configuration.",
            "samples": samples,
            "runs_per_hour": int(total("runs") / search * 3600),
            "runs_per_core_hour": int(total("runs") / busy * 3600),
            "runs_per_configuration": {c: sum(r["runs"] for r in results if r["config"] == c) for c in confs},
            "simulated_seconds": round(total("sim_ns") / 1e9, 3),
            "scheduling_steps": total("steps"),
            "thread_switches": total("switches"),
            "takeover_sites_reached": pairs,
            "takeover_sites_measure": "distinct pairs (call and seam where a thread was taken over, call and seam where the "
                                      "other thread went on)",
            "faults_injected": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault_")},
            "situations_reached": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("reach_")},
            "seam_crossings": {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault_", "reach_"))},
            "repeatability": {"seeds_executed_four_times": same, "differences": differ},
            "violations_of_other_properties": other,
            "real_code": REAL[g],
            "stubs": STUB[g],
            "build_s": round(t_build, 1),
        },
        "assumptions": [
            TRUST[g],
            "sequentially consistent memory: threads are switched at atomic accesses and system calls, not reordered",
            "what was not reached within this run's seeds is not decided",
        ],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(new) + len(crashes),
    }
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    tmp = f"{HERE}/evidence/.{prop}.json"
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, f"{HERE}/evidence/{prop}.json")

    print(f"{prop} {tier} seed {seed}: {total('runs')} runs, {hashes} distinct, "
          f"{ev['coverage']['simulated_seconds']} simulated s, {ev['wall_s']} s")
    for c, v in known:
        print(f"KNOWN-FINDING: property={prop} {v['rule']} ({c}) {v['message']}")
    for c, v in new:
        print(f"{v['rule']} ({c}, seed {v['seed']}): {v['message']}")
        print(f"VIOLATION property={prop} replay={v['replay']}")
    for c, run, how in crashes:
        path = crash_replay(c, prop, run, how, out)
        print(f"crash ({c}, seed {run}): {how}")
        print(f"VIOLATION property={prop} replay={path}")
    if new or crashes:
        return 1
    if errors or len(results) < len(procs):
        print("no verdict: " + "; ".join(errors))
        return 2
    return 0


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) != 2 or not re.fullmatch(r"C\d\d", sys.argv[1]):
        print(__doc__)
        sys.exit(2)
    sys.exit(check(sys.argv[1]))
