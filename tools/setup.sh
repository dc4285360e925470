#!/bin/bash
# Warm the builds; every check builds what it needs itself.
set -e
cd "$(dirname "$0")/.."
cargo build --offline --manifest-path harness/Cargo.toml --target-dir harness/target
cargo build --offline --manifest-path /repo/Cargo.toml -p lumberjack-utils --target-dir build/cli
java -version
