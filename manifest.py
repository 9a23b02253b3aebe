#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NA = {
    "C24": "pure value construction and comparison: no schedule, time, I/O, fault or second party for a simulation to vary",
}
WIN = "The Windows code (src/iocp, src/os/iocp.rs, lib.rs) is compiled here with only its cfg predicates evaluated for Windows. "
BSD = "The kqueue code (src/kqueue.rs, src/os/kqueue.rs, lib.rs) is compiled here with only its cfg predicates evaluated for FreeBSD, and for NetBSD's notifier."
SUN = "The event port code (src/port.rs, lib.rs) is compiled here with only its cfg predicates evaluated for illumos. "
NOTE = {
    "C03": "The clock is the simulator's: time passes only when every thread is blocked, at system calls, or in injected stalls.",
    "C10": "Blocking is judged exactly: the simulator knows when no thread can run without the waiting one being woken.",
    "C13": "Reduced kernels: eventfd, timerfd, pipe2, each absent or failing at the n-th call with several errnos.",
    "C19": "Nested pollers and a second simulated event loop observe the raw descriptor.",
    "C23": WIN,
    "C25": WIN + "Sleeps are judged at the port, in simulated time.",
    "C26": WIN + "Handles, polls, waits and memory lent to the system are tracked by the simulated system.",
    "C22": BSD,
    "C27": BSD,
    "C28": SUN,
    "C29": "The backend's code is /repo's, compiled here with its predicates evaluated for those systems. ",
    "C21": "Sleeps and wake-ups are counted at the simulated kernel's blocking calls.",
}
WINDOWS = ("C23", "C25", "C26")
checks, na = [], []
for l in open(f"{HERE}/properties.jsonl"):
    i = json.loads(l)["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
        "technique": "deterministic simulation with fault injection (seeded search over scenarios, schedules and faults; history checked against a reference model)",
        "level": "exploration",
        "level_note": (
            ("The library, in its Windows configuration, runs under a simulated Windows, clock and scheduler; " if i in WINDOWS else
             "The library, in its kqueue configurations, runs under a simulated kernel, clock and scheduler; " if i in ("C22", "C27") else
             "The library, in its event port configuration, runs under a simulated kernel, clock and scheduler; " if i == "C28" else
             "The library, in its ESP-IDF, Hermit, Vita, Haiku and Redox configurations, runs under a simulated kernel, clock and scheduler; " if i == "C29" else
             "The unmodified library, in its epoll, epoll with pipe and poll configurations, runs under a simulated kernel, clock and scheduler; ")
            + "every run is judged from its whole history, a failing one is repeated, minimised and written as a replay file. "
            + (NOTE[i] + " " if i in NOTE else "")
            + "Assurance is that of the runs made: hundreds of thousands (quick) to tens of millions (thorough) of seeds. "
            "Trusted: the kernel model, sequentially consistent atomics."
        ),
    })
json.dump({
    "version": 1,
    "setup_cmd": "./build.sh && { plat/build.sh || true; }",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the seams are the C library symbols (libc entry points of rustix and std) and the atomics, "
             "replaced at link and compile time in the simulator's own build (sim/rustc-wrap.sh); for Windows the functions of windows-sys, for BSD and illumos the calls below "
             "rustix's kqueue and port modules (plat/). Replay: python3 check.py replay FILE. "
             "Genuine defects found and repaired: known-findings.txt.",
}, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
