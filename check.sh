#!/bin/bash
# check.sh build | check.sh ID quick|thorough
# Builds the explorer and the command line program from /repo's working tree
# (offline, into the git-ignored mc/target), then runs one exploration.
cd "$(dirname "$0")" || exit 2
export MC_VERIF="$PWD" CARGO_NET_OFFLINE=true
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
unset CARGO_TARGET_DIR RUSTFLAGS RUST_LOG
REPO=/repo
build() {
    mkdir -p mc/target
    exec 9>mc/target/lock
    flock 9
    h=$( (cd $REPO && find src res Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
    if [ "$(cat mc/target/repo.hash 2>/dev/null)" != "$h" ]; then
        # do not trust modification times to notice a change of /repo
        rm -f mc/target/repo.hash
        (cd mc && cargo clean --offline --release -p svdtools -p mc) >/dev/null 2>&1
    fi
    (cd mc && cargo build --offline --release --locked) >mc/target/build.log 2>&1 || {
        tail -40 mc/target/build.log >&2
        echo "build failed" >&2
        exit 2
    }
    echo "$h" >mc/target/repo.hash
    flock -u 9
    exec 9>&-
}
build
[ "$1" = build ] && exit 0
exec mc/target/release/mc check "$1" "${2:-${VERIF_TIER:-quick}}"
