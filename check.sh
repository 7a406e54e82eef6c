#!/bin/bash
# check.sh PROPERTY TIER: builds the analyser, dumps the MIR of /repo's current tree, runs the property's analyses.
set -u
V=$(cd "$(dirname "$0")" && pwd)
R=${JSA_REPO:-/repo}
P=$1; TIER=${2:-quick}
W=$(mktemp -d /tmp/jsa.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir -p "$V/evidence"
export CARGO_NET_OFFLINE=true
"$V/build.sh" >"$W/build.log" 2>&1 || { tail -30 "$W/build.log" >&2; echo "the analyser does not build" >&2; exit 2; }
T=$V/tools/target/release
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
(cd "$R" && RUSTC_WORKSPACE_WRAPPER=$V/tools/target/nightly/release/mirdump JSA_CRATE=jsparse JSA_OUT=$W/ir.json RUSTUP_TOOLCHAIN=nightly \
  cargo check --offline --lib --manifest-path "$R/Cargo.toml" --target-dir "$W/target") >"$W/dump.log" 2>&1
[ -s "$W/ir.json" ] || { tail -30 "$W/dump.log" >&2; echo "the tree does not compile" >&2; exit 2; }
case $TIER in thorough) L=800;; *) L=600;; esac
JSA_LIMIT=${JSA_LIMIT:-$L} "$T/jsa" "$W/ir.json" check "$P" "$TIER" "$V/evidence/$P.json" "$V/known_findings.json"
