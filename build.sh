#!/bin/bash
# Builds the simulator (offline) with husk from /repo's current working tree.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
# judge by content, not by time stamps, whether husk has to be rebuilt
sum=$( (cd ../repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
if [ "$sum" != "$(cat sim/target/husk.sum 2>/dev/null)" ]; then
    [ -d sim/target/release ] && cargo clean --release --offline -p husk --manifest-path sim/Cargo.toml >/dev/null 2>&1
    mkdir -p sim/target && echo "$sum" > sim/target/husk.sum
fi
log=$(mktemp)
build() {
    cargo build --release --offline "$@" --manifest-path sim/Cargo.toml >"$log" 2>&1 && return
    local rc=$?
    [ $# -eq 0 ] && return $rc
    # a change of /repo's manifest may need another lock file; keep the committed one
    cp sim/Cargo.lock "$log.lock"
    build
    rc=$?
    cp "$log.lock" sim/Cargo.lock
    rm -f "$log.lock"
    return $rc
}
# with husk's hooks; a tree whose hooks do not compile is judged without what needs them
export RUSTFLAGS="--cfg husk_sim"
if ! build --locked; then
    export RUSTFLAGS=""
    if ! build --locked; then
        echo "the simulator does not build against /repo:" >&2
        grep -A12 '^error' "$log" | head -80 >&2
        rm -f "$log"
        exit 2
    fi
    echo "husk's hooks do not compile: going on without them" >&2
fi
rm -f "$log"
SIM=$PWD/sim/target/release/husk-sim
