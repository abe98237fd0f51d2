#!/bin/bash
# Builds the simulator from /repo's current working tree. Output: /verif/sim/target/release/plonky-sim
set -u
SELF=$(cd "$(dirname "$0")" && pwd)
REPO=${SIM_REPO:-/repo}
exec 9>"$SELF/.build.lock"; flock 9
T=/root/.rustup/toolchains
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.70.0 RUSTC=/opt/vp/shim/rustc CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS="-C target-cpu=x86-64-v2" RUSTC_WRAPPER="$SELF/rustc-wrap.sh" CARGO_TARGET_DIR="$SELF/target" CARGO_INCREMENTAL=0
unset CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_OPT_LEVEL CARGO_BUILD_RUSTC_WRAPPER
cd "$SELF" || exit 2
[ -f Cargo.lock ] || cp /opt/vp/Cargo.lock Cargo.lock
# Cargo's freshness test goes by modification times; copies and checkouts make those unreliable, so go by content.
H=$( (cd "$REPO" && find Cargo.toml src plookup -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum; cat "$SELF/rustc-wrap.sh") | sha256sum | cut -d' ' -f1)
mkdir -p target
if [ "$(cat target/.repo-hash 2>/dev/null)" != "$H" ]; then
  rm -f target/.repo-hash
  rm -rf "$SELF"/target/release/.fingerprint/plonky-[0-9a-f]* "$SELF"/target/release/.fingerprint/plookup-[0-9a-f]* "$SELF"/target/release/.fingerprint/plonky-sim-* "$SELF"/target/release/.fingerprint/sim*
fi
cargo build --release --offline >target/build.log 2>&1 || { tail -40 target/build.log; echo "simulator build failed"; exit 2; }
echo "$H" > target/.repo-hash
