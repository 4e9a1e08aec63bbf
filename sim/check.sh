#!/bin/bash
# check.sh PROPERTY TIER : build against /repo and search. Exit 0 held, 1 violation, 2 no answer.
V=$(cd "$(dirname "$0")/.." && pwd)
P=$1 T=${2:-quick}
BIN=$("$V/sim/build.sh") || { echo "check: build failed" >&2; exit 2; }
mkdir -p "$V/evidence" "$V/replays"
exec "$BIN" --prop "$P" --tier "$T" --evidence "$V/evidence/$P.json" --replays "$V/replays" --known "$V/known-findings.txt" --workers "${SIM_WORKERS:-8}"
