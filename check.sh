#!/bin/bash
# usage: check.sh <property> [quick|thorough] [runner options]   |   check.sh replay <property> <file>
cd "$(dirname "$0")" || exit 2
. ./env.sh
if [ "$1" = replay ]; then shift; exec "$BTPY" -W ignore::DeprecationWarning -m btsim.runner replay "$@"; fi
if [ "$1" = determinism ]; then shift; exec "$BTPY" -W ignore::DeprecationWarning -m btsim.runner determinism "$@"; fi
p=$1; shift
t=${1:-quick}; shift
exec "$BTPY" -W ignore::DeprecationWarning -m btsim.runner check "$p" --tier "$t" --seed "${VERIF_SEED:-1}" "$@"
