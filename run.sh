#!/bin/bash
# Usage: run.sh <property> [quick|thorough]      checks one property against /repo's working tree
#        run.sh replay <file>                    runs a replay file again
# Builds offline; everything it writes is below this directory (target, evidence, replays).
set -u
dir="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=1.82.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$dir/target" RUSTC_WRAPPER= RUSTFLAGS= CARGO_ENCODED_RUSTFLAGS=
unset CARGO_ENCODED_RUSTFLAGS
export VERIF_DIR="$dir"
cd "$dir/harness" || exit 2
bin="$dir/target/debug/rsasl-pbt"
how=()
if [ "${1:-}" = C29 ]; then
    # memory errors: a build with AddressSanitizer (its runtime comes with the toolchain)
    export RUSTC_BOOTSTRAP=1 RUSTFLAGS=-Zsanitizer=address CARGO_TARGET_DIR="$dir/target/asan"
    export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:handle_abort=0
    how=(--target x86_64-unknown-linux-gnu)
    bin="$dir/target/asan/x86_64-unknown-linux-gnu/debug/rsasl-pbt"
fi
log="$(mktemp)"
if ! cargo build --offline --locked -q "${how[@]}" >"$log" 2>&1; then
    cat "$log"; rm -f "$log"
    echo "run.sh: the harness does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
cd "$dir" || exit 2
case "${1:-}" in
    build) exit 0 ;;
    replay)
        # a finding of C29 needs that check's build
        if grep -q '"property": "C29"' "$2" && [ "$bin" = "$dir/target/debug/rsasl-pbt" ]; then
            exec "$dir/run.sh" C29 replay "$2"
        fi
        exec "$bin" replay "$2" ;;
    *)
        [ "${2:-}" = replay ] && exec "$bin" replay "$3"
        [ -n "${2:-}" ] && export VERIF_TIER="$2"
        exec "$bin" check "$1" ;;
esac
