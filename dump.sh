#!/bin/bash
# usage: dump.sh OUT.json CONFIG      (CONFIG: default | none | serialize | all | noassert | probe)
# Builds the MIR driver when it is missing and dumps the type-checked program of
# $REPO (default /repo) in the given feature configuration; `probe` is `serialize` with the module probe/probe.rs
# added in a scratch copy, so that the generic Serialize code is instantiated.
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
OUT=$1; CONFIG=${2:-default}
B=${VERIF_BUILD:-$V/.build}
mkdir -p "$B"
SYS=$(rustc +nightly --print sysroot) || exit 3
export LD_LIBRARY_PATH=$SYS/lib
exec 9>"$B/lock"; flock 9
if [ ! -x "$B/driver/release/mirdump" ] || [ "$V/driver/src/main.rs" -nt "$B/driver/release/mirdump" ]; then
  ( cd "$V/driver" && CARGO_TARGET_DIR=$B/driver cargo +nightly build --release --offline ) >"$B/driver.log" 2>&1 \
    || { tail -30 "$B/driver.log"; exit 3; }
fi
DA=true
case $CONFIG in
  default) F=();;
  none) F=(--no-default-features);;
  serialize) F=(--no-default-features --features serialize);;
  all) F=(--all-features);;
  noassert) F=(); DA=false;;
  probe) F=(--no-default-features --features serialize)
    W=$B/probe; rm -rf "$W"; mkdir -p "$W"
    cp -a "$REPO/Cargo.toml" "$REPO/src" "$W/" || exit 3
    [ -f "$REPO/Cargo.lock" ] && cp -a "$REPO/Cargo.lock" "$W/"
    cat "$V/probe/probe.rs" >>"$W/src/lib.rs"
    REPO=$W; export RUSTFLAGS=-Zalways-encode-mir;;
esac
T=$B/md-$CONFIG
# force the wrapper to run again
find "$T" \( -path '*webrtc-sdp-*' -o -path '*webrtc_sdp-*' \) -prune -exec rm -rf {} + 2>/dev/null
rm -f "$OUT"
( cd "$REPO" && MIRDUMP_OUT=$OUT RUSTC_WORKSPACE_WRAPPER=$B/driver/release/mirdump CARGO_TARGET_DIR=$T \
  CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=$DA \
  cargo +nightly check --offline --lib "${F[@]}" ) >"$B/dump-$CONFIG.log" 2>&1
rc=$?
if [ $rc -ne 0 ] || [ ! -s "$OUT" ]; then tail -30 "$B/dump-$CONFIG.log"; exit 4; fi
exit 0
