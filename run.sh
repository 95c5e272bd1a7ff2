#!/bin/bash
# run.sh build                 build the checker against /repo's working tree
# run.sh check ID TIER         build it if needed, then run one check
# Exit codes of a check: 0 it held, 1 it did not (VIOLATION line), 2 no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH="$PATH:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$here/mc/target" YARY_MC_HOME="$here"
unset RUSTFLAGS RUSTDOCFLAGS CARGO_ENCODED_RUSTFLAGS || true

build() {
    mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" || return 2
    # Cargo goes by mtimes; this goes by content
    local now was=
    now=$(cd /repo && { find src -type f -print0; printf '%s\0' Cargo.toml; } | sort -z | xargs -0 sha256sum | sha256sum) || return 2
    [ -f "$CARGO_TARGET_DIR/stamp" ] && was=$(cat "$CARGO_TARGET_DIR/stamp")
    if [ "$now" != "$was" ]; then
        rm -f "$CARGO_TARGET_DIR/stamp"
        find "$CARGO_TARGET_DIR" -maxdepth 3 -path '*/.fingerprint/yary-*' -exec rm -rf {} + 2>/dev/null
    fi
    (cd "$here/mc" && cargo build --offline --quiet 2>"$CARGO_TARGET_DIR/build.log") || {
        echo "the checker does not build against /repo:"
        grep -E -A8 '^error' "$CARGO_TARGET_DIR/build.log" | head -60
        return 2
    }
    echo "$now" > "$CARGO_TARGET_DIR/stamp"
}

case "${1:-}" in
    build) build || exit 2 ;;
    check)
        ( flock 9; build ) 9>"$here/mc/.lock" || exit 2
        exec "$CARGO_TARGET_DIR/debug/yary-mc" check "$2" --tier "${3:-quick}"
        ;;
    *) echo "usage: run.sh build | run.sh check ID quick|thorough"; exit 2 ;;
esac
