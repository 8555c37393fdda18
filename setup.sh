#!/bin/bash
# Builds the framework from the committed files. The checks of the modules that need stand-ins
# (build.sh full) are built apart, and say themselves when they do not build.
here=$(cd "$(dirname "$0")" && pwd)
"$here/tools/build.sh" full || echo "warning: the checks C37 to C44 did not build"
exec "$here/tools/build.sh" scope
