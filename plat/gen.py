#!/usr/bin/env python3
"""Generates, below the directory given, a crate that compiles /repo's code for another platform here.

  gen.py iocp|kqueue|kqueue-pipe|port|poll-esp|poll-hermit|poll-vita|poll-haiku|epoll-redox DIR

The sources are /repo's working tree. Only the predicates inside `cfg(...)` are evaluated for the other platform and
`std::os::windows` is replaced by a crate with the same types, `std::os::hermit` by `std::os::unix`; no other text changes.
"""
import os
import re
import shutil
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"

PLATFORM = {
    "iocp": {"target_os": "windows", "target_family": "windows", "target_vendor": "pc", "bare": "windows"},
    "kqueue": {"target_os": "freebsd", "target_family": "unix", "target_vendor": "unknown", "bare": "unix"},
    "kqueue-pipe": {"target_os": "netbsd", "target_family": "unix", "target_vendor": "unknown", "bare": "unix"},
    "poll-esp": {"target_os": "espidf", "target_family": "unix", "target_vendor": "unknown", "bare": "unix"},
    "poll-vita": {"target_os": "vita", "target_family": "unix", "target_vendor": "unknown", "bare": "unix"},
    "poll-hermit": {"target_os": "hermit", "target_family": "", "target_vendor": "unknown", "bare": ""},
    "poll-haiku": {"target_os": "haiku", "target_family": "unix", "target_vendor": "unknown", "bare": "unix"},
    "epoll-redox": {"target_os": "redox", "target_family": "unix", "target_vendor": "unknown", "bare": "unix"},
    "port": {"target_os": "illumos", "target_family": "unix", "target_vendor": "unknown", "bare": "unix"},
}


def predicate(text, p):
    def kv(m):
        return "all()" if p[m.group(1)] == m.group(2) else "any()"

    text = re.sub(r'\b(target_os|target_family|target_vendor)\s*=\s*"([^"]*)"', kv, text)
    # rustix's own names for groups of platforms
    text = re.sub(r"\bapple\b", "any()", text)
    text = re.sub(r"\bfreebsdlike\b", "all()" if p["target_os"] == "freebsd" else "any()", text)
    return re.sub(r'(?<![\w"])(unix|windows)(?![\w"(])', lambda m: "all()" if m.group(1) == p["bare"] else "any()", text)


def retarget(text, p):
    out, i = [], 0
    for m in re.finditer(r"\bcfg(?:_attr|!)?\s*\(", text):
        if m.start() < i:
            continue
        j, depth = m.end(), 1
        while j < len(text) and depth:
            c = text[j]
            if c == '"':
                j = text.find('"', j + 1)
            depth += (c == "(") - (c == ")")
            j += 1
        out.append(text[i:m.end()])
        out.append(predicate(text[m.end():j], p))
        i = j
    out.append(text[i:])
    return "".join(out).replace("std::os::windows", "polwin::os").replace("std::os::hermit", "std::os::unix")


def put(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(text)


def main():
    name, out = sys.argv[1], os.path.abspath(sys.argv[2])
    p = PLATFORM[name]
    keep = set()
    for root, _, files in os.walk(f"{REPO}/src"):
        for f in files:
            src = os.path.join(root, f)
            dst = f"{out}/polling/src/{os.path.relpath(src, f'{REPO}/src')}"
            keep.add(dst)
            put(dst, retarget(open(src).read(), p) if f.endswith(".rs") else open(src).read())
    for root, _, files in os.walk(f"{out}/polling/src"):
        for f in files:
            if os.path.join(root, f) not in keep:
                os.remove(os.path.join(root, f))
    base = "kqueue" if name in ("port", "epoll-redox") or name.startswith("poll-") else name.split("-")[0]
    sub = lambda t: t.replace("@HERE@", HERE).replace("@CONFIG@", name)
    for root, _, files in os.walk(f"{HERE}/crates"):
        for f in files:
            text = open(os.path.join(root, f)).read()
            put(f"{out}/{os.path.relpath(os.path.join(root, f), f'{HERE}/crates')}", retarget(text, p) if f in ("kqueue.rs", "port.rs") else text)
    for root, _, files in os.walk(f"{HERE}/{base}/pollwrap"):
        for f in files:
            put(f"{out}/{os.path.relpath(os.path.join(root, f), f'{HERE}/{base}')}", sub(open(os.path.join(root, f)).read()))
    put(f"{out}/polling/Cargo.toml", sub(open(f"{HERE}/{base}.polling.toml").read()))
    put(f"{out}/Cargo.toml", sub(open(f"{HERE}/{base}.sim.toml").read()))
    put(f"{out}/Cargo.lock", open(f"{HERE}/{base}.lock").read()) if os.path.exists(f"{HERE}/{base}.lock") else None


main()
