#!/bin/bash
# Builds the simulator against /repo's working tree (offline), with the guarded hook (--cfg vsim).
# Should the hook itself no longer compile after a change of private code (it is compiled only here),
# the simulator is built without it: only the ERC-721 wrapper's private recovery is then left out.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
RUSTFLAGS="--cfg vsim" cargo build --offline --manifest-path sim/Cargo.toml && exit 0
echo "build: retrying without the hook" >&2
cargo build --offline --manifest-path sim/Cargo.toml
