#!/bin/sh
# RUSTC_WRAPPER: adds basic-block callbacks to the code under test (and to the adapter crate, where
# its generics are instantiated), and to nothing else.
rustc="$1"; shift
prev=
for a in "$@"; do
    if [ "$prev" = "--crate-name" ]; then
        case "$a" in
            kemnode)
                # -Bsymbolic: the library's own `syscall` (covhook) is the one it uses
                exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
                    -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Clink-arg=-Wl,-Bsymbolic ;;
            ml_kem|x_wing|dhkem)
                exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
                    -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
        esac
        break
    fi
    prev="$a"
done
exec "$rustc" "$@"
