#!/bin/bash
# Lays out /repo's crate and builds a harness against it:
#   build.sh [scope]   the part that builds offline
#   build.sh full      the whole crate, with stand-ins for gribberish and readap
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/tools/env.sh"
set -e
mode=${1:-scope}
case $mode in
    scope) harness=harness ;;
    full) harness=harness_full ;;
esac
mkdir -p "$here/.build"
exec 9> "$here/.build/lock"
flock 9
python3 "$here/tools/layout.py" "$mode" "$here/.build/$mode"
cd "$here/$harness"
log="$here/.build/build.$mode.log"
if ! cargo build --offline --quiet > "$log" 2>&1; then
    grep -E -A12 '^error' "$log" | head -60 || tail -40 "$log"
    exit 1
fi
