#!/bin/bash
# check.sh ID [quick|thorough] : build the checker from /repo's current tree and decide one property.
# check.sh --build             : only build.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export RUSTFLAGS="-C target-cpu=x86-64" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
export MC_ROOT="${MC_ROOT:-$here}"
cd "$here/harness" || exit 2
mkdir -p target
exec 9>target/.check-lock
flock 9
# cargo looks at time stamps only; make sure a change of content is always seen
stamp=$(cd /repo && { cat Cargo.toml; find src -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)
if [ "$(cat target/.stamp 2>/dev/null)" != "$stamp" ]; then
    cargo clean --offline -q -p blockchaintree >/dev/null 2>&1
fi
if ! cargo build --offline -q >target/build.log 2>&1; then
    echo "ERROR: the checker does not build against /repo"
    grep -E -A12 '^error' target/build.log | head -60
    exit 2
fi
echo "$stamp" >target/.stamp
flock -u 9
exec 9>&-
[ "${1:-}" = --build ] && exit 0
exec ./target/debug/mc run "$1" "${2:-${VERIF_TIER:-quick}}"
