#!/bin/bash
# check.sh <ID>|build [quick|thorough]: builds the harness against /repo's current tree and decides one property.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export RUSTC_WRAPPER= CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
export CARGO_TARGET_DIR="$here/harness/target"
mkdir -p "$CARGO_TARGET_DIR" || exit 2
[ -n "${2:-}" ] && export VERIF_TIER=$2

build() {
    # contents, not time stamps, decide whether /repo has changed
    local now old log="$CARGO_TARGET_DIR/build.log"
    now=$(cd /repo && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -print0 |
        LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
    old=$(cat "$CARGO_TARGET_DIR/stamp" 2>/dev/null)
    cd "$here/harness" || return 2
    if [ "$now" != "$old" ]; then
        rm -f "$CARGO_TARGET_DIR/stamp"
        cargo clean --offline --release -p smtp-message -p smtp-server -p smtp-queue >/dev/null 2>&1
    fi
    if ! cargo build --release --offline --locked >"$log" 2>&1; then
        grep -A12 '^error' "$log" | head -60 >&2
        echo "error: the harness does not build" >&2
        return 2
    fi
    echo "$now" >"$CARGO_TARGET_DIR/stamp"
}
exec 9>"$CARGO_TARGET_DIR/lock" && flock 9
build || exit 2
flock -u 9
exec 9>&-
cd "$here" || exit 2
[ "${1:-}" = build ] && exit 0
export YV_VERIF="$here" YV_REPO=/repo
exec "$CARGO_TARGET_DIR/release/yv" run "$1"
