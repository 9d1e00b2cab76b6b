#!/bin/bash
# build-node.sh a|b|c|d|e|f|g|h [plain] : one build of the fleet from /repo's working tree; plain: the
# code under test unoptimised, everything else about the build as it is
set -e
here="$(cd "$(dirname "$0")/.." && pwd)"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export RUSTC_WRAPPER="$here/tools/rustc-wrap.sh"
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
case "$1" in
    a) name=checked ;;
    b|d|g) name=release ;;
    c) name=dev ;;
    e) name=audited ;;
    f) name=relaxed ;;
    h) name=barely ;;
esac
prof="--profile $name"
out="$here/target/$1"
if [ "${2:-}" = plain ]; then
    out="$here/target/plain/$1"
    for c in kemnode ml-kem x-wing; do
        prof="$prof --config profile.$name.package.$c.opt-level=0"
    done
fi
cd "$here/node"
exec cargo build --offline --locked $prof --no-default-features --features "build_$1" --target-dir "$out"
