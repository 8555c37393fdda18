#!/bin/bash
# Demonstration: compiles demo.rs beside this file against the built library and runs it.
# Exit 0: the behaviour is right. Exit 1: it is not. Exit 97: could not be compiled.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
target=${CARGO_TARGET_DIR:-/opt/vp/target}
deps=$target/debug/deps
work=$(mktemp -d) || exit 97
trap 'rm -r -f -- "$work"' EXIT
lib=$(ls -t "$deps"/libsurfrs-*.rlib 2>/dev/null | head -1)
if [ -z "$lib" ]; then
    (cd /opt/vp/scope && cargo build --offline) > "$work/build.log" 2>&1
    lib=$(ls -t "$deps"/libsurfrs-*.rlib "$target"/debug/libsurfrs.rlib 2>/dev/null | head -1)
fi
built=
for chrono in $(ls -t "$deps"/libchrono-*.rlib) ; do
    for json in $(ls -t "$deps"/libserde_json-*.rlib) ; do
        if rustc --edition 2021 -A warnings "$here/demo.rs" -o "$work/demo" -L "dependency=$deps" \
            --extern "surfrs=$lib" --extern "chrono=$chrono" --extern "serde_json=$json" 2> "$work/log"; then
            built=1; break 2
        fi
    done
done
if [ -z "$built" ]; then
    cat "$work/log"
    exit 97
fi
cd "$work" && timeout 120 ./demo
status=$?
[ $status -eq 0 ] && exit 0
exit 1
