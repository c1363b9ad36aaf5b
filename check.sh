#!/bin/bash
# check.sh PROP            run the check of one property (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE     run one saved case
# check.sh build           build only
# check.sh show PROP N     print generated cases
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VH_HOME="$here"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTFLAGS="--cap-lints warn"
export CARGO_TARGET_DIR="$here/harness/target" CARGO_INCREMENTAL=1
unset CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"

build() {
    mkdir -p "$CARGO_TARGET_DIR"
    exec 9>"$CARGO_TARGET_DIR/.vh-lock"
    flock 9
    cd "$here/harness" || return 3
    # cargo decides by modification time; a checkout can bring older files, so decide by content here
    local now
    now=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; cd "$here/harness" && find src Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
    if [ ! -f "$CARGO_TARGET_DIR/.vh-stamp" ] || [ "$now" != "$(cat "$CARGO_TARGET_DIR/.vh-stamp")" ]; then
        cargo clean --offline --release -p s3-server -p vh >/dev/null 2>&1
        if ! cargo build --release --offline >"$CARGO_TARGET_DIR/.vh-build.log" 2>&1; then
            tail -n 60 "$CARGO_TARGET_DIR/.vh-build.log" >&2
            echo "build failed" >&2
            return 3
        fi
        echo "$now" >"$CARGO_TARGET_DIR/.vh-stamp"
    elif [ ! -x "$CARGO_TARGET_DIR/release/vh" ] || [ ! -x "$CARGO_TARGET_DIR/release/s3d" ]; then
        cargo build --release --offline >&2 || return 3
    fi
    flock -u 9
    cd "$here"
}

case "${1:-}" in
    "") echo "usage: check.sh PROP | replay FILE | build | show PROP N" >&2; exit 3 ;;
    build) build; exit $? ;;
    replay) f="$(realpath "$2")"; build || exit 3; exec "$CARGO_TARGET_DIR/release/vh" replay "$f" ;;
    show) build || exit 3; exec "$CARGO_TARGET_DIR/release/vh" show "$2" "${3:-10}" ;;
    *) build || exit 3; exec "$CARGO_TARGET_DIR/release/vh" run "$1" ;;
esac
