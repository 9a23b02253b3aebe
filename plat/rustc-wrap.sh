#!/bin/sh
# RUSTC_WRAPPER of the simulators for other platforms; see sim/rustc-wrap.sh.
rustc="$1"; shift
prev=; name=
for a in "$@"; do
    [ "$prev" = --crate-name ] && name="$a"
    prev="$a"
done
case "$name" in
    polling|pollwrap|platsim|rustix)
        case "${POLSIM_CONFIG:-}" in
            kqueue) set -- "$@" --cfg polsim_kqueue ;;
            port) set -- "$@" --cfg polsim_port ;;
            epoll-redox) set -- "$@" --cfg polsim_redox ;;
            poll-*)
                set -- "$@" --cfg "polsim_${POLSIM_CONFIG#poll-}"
                # The selection of the backend is the library's.
                [ "$name" = polling ] || set -- "$@" --cfg polling_test_poll_backend ;;
            kqueue-pipe) set -- "$@" --cfg polsim_kqueue --cfg polsim_kqueue_pipe ;;
        esac ;;
esac
case "$name" in
    polling|pollwrap)
        RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Zsanitizer=thread \
            -Cunsafe-allow-abi-mismatch=sanitizer \
            -Cllvm-args=-tsan-instrument-memory-accesses=0 \
            -Cllvm-args=-tsan-instrument-func-entry-exit=0 \
            -Cllvm-args=-tsan-instrument-memintrinsics=0 ;;
    platsim|polsim) RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
    *) exec "$rustc" "$@" ;;
esac
