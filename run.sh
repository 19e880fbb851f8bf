#!/bin/bash
# run.sh PROPERTY TIER: build the simulator against /repo's working tree and check one property.
# run.sh replay FILE: repeat the execution recorded in a replay file.
set -u
cd "$(dirname "$0")" || exit 2
prop="$1"
[ "$1" = replay ] && prop=$(sed -n 's/^property[: ]*//p' "$2" | head -1)
case "$prop" in
C06)
    bash ./build.sh fine || exit 2
    dst=./dst/target/fine/debug/dst
    ;;
C16)
    bash ./build.sh work || exit 2
    dst=./dst/target/work/x86_64-unknown-linux-gnu/debug/dst
    ;;
*)
    bash ./build.sh || exit 2
    dst=./dst/target/debug/dst
    ;;
esac
if [ "$1" = replay ]; then
    exec "$dst" replay "$2"
fi
exec "$dst" check "$1" --tier "${2:-quick}"
