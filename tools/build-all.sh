#!/bin/bash
# build-all.sh : the simulator and the eight builds of the fleet.  Builds that do not compile are
# left out of the fleet (the simulator notes it); A or B must.  plain: the eight builds with the code
# under test unoptimised, and no simulator.
here="$(cd "$(dirname "$0")/.." && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR RUSTC_WRAPPER
t="$here/target${1:+/$1}"
mkdir -p "$t"
declare -A out=([a]=a/checked [b]=b/release [c]=c/debug [d]=d/release [e]=e/audited [f]=f/relaxed [g]=g/release [h]=h/barely) pid
for b in a b c d e f g h; do
    ( "$here/tools/build-node.sh" "$b" $1 ) >"$t/build-$b.log" 2>&1 &
    pid[$b]=$!
done
( [ -n "$1" ] || { cd "$here/sim" && exec cargo build --release --offline --locked --target-dir "$t/sim"; } ) >"$t/build-sim.log" 2>&1 &
sim=$!
ok=
for b in a b c d e f g h; do
    if wait "${pid[$b]}"; then
        [ "$b" = a ] || [ "$b" = b ] && ok=1
    else
        echo "build $b failed:"; tail -15 "$t/build-$b.log"
        rm -f "$t/${out[$b]}/libkemnode.so"
    fi
done
if ! wait "$sim"; then
    echo "simulator build failed:"; tail -30 "$t/build-sim.log"
    exit 1
fi
[ -n "$ok" ]
