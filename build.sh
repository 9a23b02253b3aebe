#!/bin/sh
# Builds the simulator for the three backend configurations from /repo's working tree. Output below $1 (default /verif/sim/target).
set -u
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/sim/target}
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER="$here/sim/rustc-wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET 2>/dev/null
mkdir -p "$out"
pids=
for c in epoll poll epoll-pipe; do
    (cd "$here/sim" && POLSIM_CONFIG=$c cargo build --release --offline --locked --target-dir "$out/$c" >"$out/$c.log" 2>&1) &
    pids="$pids $!"
done
rc=0
for p in $pids; do wait "$p" || rc=1; done
[ $rc = 0 ] || { for c in epoll poll epoll-pipe; do echo "== $c"; grep -E '^(error|warning: unused)' -A12 "$out/$c.log" | head -60; done; }
exit $rc
