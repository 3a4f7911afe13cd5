#!/bin/bash
# usage: check.sh <property> — builds the simulator against /repo's working tree and searches.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" VERIF_KNOWN="$PWD/known_findings.txt"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
log="$PWD/sim/target/build-$1.log"
mkdir -p sim/target
if ! bash build.sh >"$log" 2>&1; then
    tail -40 "$log" >&2
    echo "check: the simulator does not build against /repo" >&2
    exit 2
fi
exec sim/target/debug/sim check "$1"
