#!/bin/bash
# bash /verif/mc/run.sh <property|--build> [--tier quick|thorough] [--replay FILE]
# Builds the checker against /repo's working tree and runs one property.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.82-x86_64-unknown-linux-gnu RUSTUP_AUTO_INSTALL=0 CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
export RUSTC_WRAPPER="$here/rustc-wrap.sh" VP_VERIF=$(dirname "$here")
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR=${VP_TARGET:-/repo/target}
exec 9>/tmp/.vpmc.lock; flock 9
cp /repo/Cargo.lock "$here/Cargo.lock"
log=$(mktemp /tmp/vpmc-build.XXXXXX)
build() { ( cd "$here" && cargo build --offline --bin vpmc ) >"$log" 2>&1 9>&-; }
# an incremental build can leave symbols undefined (a fault of rustc's): once more, as a whole
if ! build && ! VP_WHOLE=1 build; then
  tail -60 "$log"; rm -f "$log"; echo "the checker did not build against /repo"; exit 2
fi
rm -f "$log"
exec 9>&-
[ "$1" = --build ] && exit 0
exec "$CARGO_TARGET_DIR/debug/vpmc" "$@"
