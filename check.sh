#!/bin/bash
# ./check.sh <property> [--replay FILE]   decide one property against /repo's working tree
# Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough), VERIF_REPO (default /repo).
here=$(cd "$(dirname "$0")" && pwd)
. "$here/tools/env.sh"
mode=scope bin=surfrs-verif
case "$1" in
    C37|C38|C39|C40|C41|C42|C43|C44) mode=full bin=surfrs-verif-full ;;
esac
"$here/tools/build.sh" $mode || { echo "error: the harness did not build"; exit 2; }
ulimit -v 16000000 2>/dev/null
exec "$CARGO_TARGET_DIR/debug/$bin" "$@"
