#!/bin/bash
# replay.sh FILE : re-executes a recorded violation. Exit 1 when it reproduces.
V=$(cd "$(dirname "$0")/.." && pwd)
BIN=$("$V/sim/build.sh") || exit 2
exec "$BIN" -v --replay "$1"
