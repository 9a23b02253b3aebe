#!/bin/sh
# RUSTC_WRAPPER of the simulator build. The crate under test (and its concrete instantiations in `pollwrap`) is compiled
# with thread-sanitizer instrumentation of atomics only; the simulator defines the instrumentation functions.
# POLSIM_CONFIG selects the backend.
rustc="$1"; shift
prev=; name=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name="$a"
    prev="$a"
done
cfg=
case "$POLSIM_CONFIG" in
    poll) cfg=polling_test_poll_backend ;;
    epoll-pipe) cfg=polling_test_epoll_pipe ;;
    *) cfg=polling_test_default_backend ;;
esac
case "$name" in
    polling|pollwrap)
        RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" --cfg "$cfg" -Zsanitizer=thread \
            -Cunsafe-allow-abi-mismatch=sanitizer \
            -Cllvm-args=-tsan-instrument-memory-accesses=0 \
            -Cllvm-args=-tsan-instrument-func-entry-exit=0 \
            -Cllvm-args=-tsan-instrument-memintrinsics=0 ;;
    polsim) RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" --cfg "$cfg" -Cunsafe-allow-abi-mismatch=sanitizer ;;
    *) exec "$rustc" "$@" ;;
esac
