#!/bin/bash
# Builds the dependencies, the kit and the library once, so that the checks only build their own program.
cd "$(dirname "$0")/harness" || exit 1
cargo build --offline --profile checked --lib || exit 1
cargo build --offline --profile checked --lib --features std --target-dir target-std || exit 1
