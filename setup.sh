#!/bin/bash
# builds the MIR driver and the analyser from the committed sources, offline
set -e
cd "$(dirname "$0")"
(cd driver && cargo +nightly build --offline --release -q) || { echo "driver build failed" >&2; exit 2; }
(cd engine && cargo build --offline --release -q) || { echo "engine build failed" >&2; exit 2; }
