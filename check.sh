#!/bin/bash
# Usage: check.sh ID   (VERIF_SEED, VERIF_TIER from the environment)
# Builds the simulator against /repo's working tree and decides one property.
set -u
cd "$(dirname "$0")" || exit 2
. ./build.sh || { echo "build failed" >&2; exit 2; }
export VERIF_DIR="$PWD"
exec "$SIM" check --property "$1" "${@:2}"
