#!/bin/bash
# Usage: check.sh <property id> [--thorough] [--replay FILE]
# Decides one property of /repo's current working tree (see DESIGN.md).
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8
# never reuse byte code that something else cached for /repo
export PYTHONPYCACHEPREFIX="$here/.nopycache"
unset EBMLITE_SCHEMA_PATH
for a; do [ "$a" = --thorough ] && export VERIF_TIER=thorough; done
cd "$here" && exec python3-vt -W ignore -m pbt.run "$@"
