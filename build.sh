#!/bin/bash
# builds the analyser (also the setup command)
set -e
V=$(cd "$(dirname "$0")" && pwd)
cd "$V/tools"
cargo build --offline --release -p jsa &
A=$!
# the importer links against the compiler and needs its toolchain; its own folder lets both builds run at once
cargo +nightly build --offline --release -p mirdump --target-dir "$V/tools/target/nightly"
wait $A
