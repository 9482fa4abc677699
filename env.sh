# Sourced by check.sh, replay.sh and setup.sh.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
export RUST_BACKTRACE=0
unset RUSTFLAGS RUST_TEST_THREADS LD_PRELOAD LD_LIBRARY_PATH CARGO_BUILD_TARGET
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export FPV_VERIF=$VERIF
export CARGO_TARGET_DIR=$VERIF/target

# Builds the harness against the working tree of /repo, with the hooks if they can be compiled.
# The argument is the profile of cargo: release, or checked for property C28.
build() {
    local log profile=${1:-release}
    FPV=$CARGO_TARGET_DIR/$profile/fpv
    log=$(mktemp)
    if (cd "$VERIF/harness" &&
        RUSTFLAGS="--cfg fast_paths_verif" cargo build --profile "$profile" --offline >"$log" 2>&1); then
        rm -f "$log"
        return 0
    fi
    echo "note: cannot be built with the hooks, trying without" >&2
    if (cd "$VERIF/harness" && cargo build --profile "$profile" --offline >"$log" 2>&1); then
        rm -f "$log"
        return 0
    fi
    tail -40 "$log" >&2
    rm -f "$log"
    echo "error: the harness cannot be built against /repo" >&2
    return 1
}
