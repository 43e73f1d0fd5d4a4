#!/bin/bash
# check.sh ID [quick|thorough]: decides one property from /repo's current source.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}"
./setup.sh || { echo "could not build the analyzer"; exit 2; }
AN_DIR="$PWD" exec ./bin/analyzer check "$1" "${2:-${VERIF_TIER:-quick}}"
