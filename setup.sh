#!/bin/bash
# Build the simulator once (offline).
cd "$(dirname "$0")" || exit 2
bash build.sh && sim/target/debug/sim selftest
