#!/bin/bash
# run.sh ID: runs the check of one property (see MANIFEST.json); env VERIF_SEED, VERIF_TIER.
cd "$(dirname "$0")" || exit 2
id=$(echo "$1" | tr 'A-Z' 'a-z'); shift
exec python3 "checks/$id.py" "$@"
