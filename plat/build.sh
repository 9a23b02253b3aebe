#!/bin/sh
# Builds the simulators of the code for other platforms from /repo's working tree. Output below $1 (default
# /verif/plat/target); the configurations to build can follow.
set -u
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/target}
[ $# -gt 0 ] && shift
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER="$here/rustc-wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET 2>/dev/null
mkdir -p "$out"
rc=0
for c in ${*:-iocp kqueue kqueue-pipe port poll-esp poll-hermit poll-vita poll-haiku epoll-redox}; do
    python3 "$here/gen.py" "$c" "$out/$c.gen" || exit 2
    (cd "$out/$c.gen" && POLSIM_CONFIG=$c cargo build --release --offline $([ -f Cargo.lock ] && echo --locked) --target-dir "$out/$c" >"$out/$c.log" 2>&1) || {
        rc=1
        echo "== $c"
        grep -E '^error' -A12 "$out/$c.log" | head -60
    }
done
exit $rc
