#!/bin/bash
# Nothing is installed; building once shows that the harness compiles offline.
set -e
cd "$(dirname "$0")/harness"
cargo build --release --offline --locked 2>&1 | tail -1
