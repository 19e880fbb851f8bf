#!/bin/bash
# RUSTC_WRAPPER of the build that counts work (see hook/src/lib.rs): the standard library, the
# tokenizer, the library and the simulator, which instantiates derived code, count basic blocks.
rustc="$1"
shift
prev=
for a in "$@"; do
    if [ "$prev" = --crate-name ]; then
        case "$a" in
        core | alloc | std | hashbrown | xmlparser | chrono | instant_xml | dst)
            exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
                -Cllvm-args=-sanitizer-coverage-trace-pc
            ;;
        hook)
            exec "$rustc" "$@" --cfg work
            ;;
        esac
        break
    fi
    prev="$a"
done
exec "$rustc" "$@"
