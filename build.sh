#!/bin/bash
# build.sh [fine|work]: build the simulator and, with it, the library from /repo's working tree (offline).
# With "fine", the library is compiled with preemption points; with "work", the library and the
# standard library count the work they do (see dst/hook/src/lib.rs).
# Cargo decides by time stamps what is stale; a content hash makes sure that a tree whose files
# changed without newer time stamps is rebuilt as well.
set -u
cd "$(dirname "$0")/dst" || exit 2
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/target"
unset RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
if [ "${1:-}" = fine ]; then
    export CARGO_TARGET_DIR="$PWD/target/fine"
    export RUSTC_WRAPPER="$PWD/fine-rustc.sh"
fi
build=(cargo build --offline -q)
clean=(cargo clean --offline -q -p instant-xml -p instant-xml-macros -p hook -p dst)
bin=debug/dst
if [ "${1:-}" = work ]; then
    export CARGO_TARGET_DIR="$PWD/target/work"
    export RUSTC_WRAPPER="$PWD/work-rustc.sh"
    export RUSTC_BOOTSTRAP=1
    build+=(-Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu)
    clean+=(--target x86_64-unknown-linux-gnu)
    bin=x86_64-unknown-linux-gnu/debug/dst
fi
T="$CARGO_TARGET_DIR"
mkdir -p "$T"
(
    flock 9
    now=$( { find /repo/instant-xml /repo/instant-xml-macros -name target -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print0
             find src hook/src -type f -name '*.rs' -print0
             printf '%s\0' /repo/Cargo.toml Cargo.toml Cargo.lock fine-rustc.sh work-rustc.sh
           } | sort -z | xargs -0 sha256sum 2>/dev/null | sha256sum )
    if [ "$now" != "$(cat "$T/sources.sha256" 2>/dev/null)" ]; then
        rm -f "$T/sources.sha256"
        "${clean[@]}" 2>/dev/null
        if ! "${build[@]}" 2>"$T/build.log"; then
            cat "$T/build.log" >&2
            echo "the simulator does not build against /repo" >&2
            exit 2
        fi
        echo "$now" >"$T/sources.sha256"
    elif [ ! -x "$T/$bin" ]; then
        "${build[@]}" || exit 2
    fi
) 9>"$T/lock"
