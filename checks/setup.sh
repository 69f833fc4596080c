#!/bin/bash
# builds the extractor and the harness (the checks rebuild what is missing or out of date)
set -e
cd "$(dirname "$0")/.."
mkdir -p build/tmp
(cd tools/vx && CARGO_TARGET_DIR=../../build/vx cargo build --release --offline -q)
(cd tools/harness && CARGO_TARGET_DIR=../../build/harness cargo build --release --offline -q)
