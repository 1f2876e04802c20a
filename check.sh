#!/bin/bash
# usage: check.sh ID [quick|thorough]   (or: check.sh build)
# Builds the harness against /repo's current working tree and runs one check.
cd "$(dirname "$0")" || exit 2
mkdir -p target
build() {
    # What the sources say counts, not when they were written.
    local now old
    now=$(cd /repo && find Cargo.toml yam-core yam-serde -name target -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
    old=$(cat target/sources.sha 2>/dev/null)
    if [ "$now" != "$old" ]; then
        rm -f target/sources.sha
        (cd harness && cargo clean --offline --release -p yam-core -p yam-serde >/dev/null 2>&1)
        (cd harness && cargo clean --offline --release -p yam-core -p yam-serde --target-dir ../target/comment >/dev/null 2>&1)
    fi
    (cd harness && cargo build --release --offline >../target/build.log 2>&1) || { cat target/build.log; return 2; }
    if [ "$1" = C18 ] || [ "$1" = build ]; then
        (cd harness && cargo build --release --offline --features comment --target-dir ../target/comment >../target/build.log 2>&1) || { cat target/build.log; return 2; }
    fi
    echo "$now" >target/sources.sha
}
exec 9>target/lock
flock 9
build "$1" || { echo "ERROR: the harness does not build"; exit 2; }
flock -u 9
exec 9>&-
[ "$1" = build ] && exit 0
bin=target/release/harness
[ "$1" = C18 ] && bin=target/comment/release/harness
exec "$bin" check "$1" "${2:-}"
