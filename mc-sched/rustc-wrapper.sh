#!/bin/sh
# Instruments gauss-quad and the operations crate: every atomic operation in them (also those inlined from core, alloc,
# std and rayon) becomes a call of the hooks in mc-rt.
rustc="$1"
shift
case " $* " in
*" --crate-name gauss_quad "* | *" --crate-name mc_ops "*)
    RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer
    ;;
*" --crate-name mc_sched "*)
    RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer
    ;;
esac
exec "$rustc" "$@"
