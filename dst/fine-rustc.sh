#!/bin/bash
# RUSTC_WRAPPER of the build with preemption points (see hook/src/lib.rs): only the library and the
# simulator, which instantiates its generic and derived code, get them.
rustc="$1"
shift
prev=
for a in "$@"; do
    if [ "$prev" = --crate-name ]; then
        case "$a" in
        instant_xml | dst)
            exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
                -Cllvm-args=-sanitizer-coverage-trace-pc -Cllvm-args=-sanitizer-coverage-trace-loads \
                -Cllvm-args=-sanitizer-coverage-trace-stores
            ;;
        esac
        break
    fi
    prev="$a"
done
exec "$rustc" "$@"
