#!/bin/bash
# Demonstration: builds the whole crate of the current directory, with the stand-in crates laid
# beside this file for the two that cannot be fetched, then compiles demo.rs against it and runs it.
# Exit 0: the behaviour is right. Exit 1: it is not. Exit 97: could not be compiled.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
work=$(mktemp -d) || exit 97
trap 'rm -r -f -- "$work"' EXIT
mkdir -p "$work/lib" "$work/gribberish/src" "$work/readap/src" "$work/demo/src"
cp -r "$repo/src" "$work/lib/src"
cp "$here/gribberish.rs" "$work/gribberish/src/lib.rs"
cp "$here/readap.rs" "$work/readap/src/lib.rs"
cp "$here/demo.rs" "$work/demo/src/main.rs"
sed -e '/^\[dev-dependencies\]/,$d' \
    -e 's#^gribberish *=.*#gribberish = { path = "../gribberish" }#' \
    -e 's#^readap *=.*#readap = { path = "../readap" }#' "$repo/Cargo.toml" > "$work/lib/Cargo.toml"
printf '[package]\nname = "gribberish"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nchrono = "0.4"\n' > "$work/gribberish/Cargo.toml"
printf '[package]\nname = "readap"\nversion = "0.1.0"\nedition = "2021"\n' > "$work/readap/Cargo.toml"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nsurfrs = { path = "../lib" }\ngribberish = { path = "../gribberish" }\nreadap = { path = "../readap" }\nchrono = "0.4"\nserde_json = "1.0"\n' > "$work/demo/Cargo.toml"
cp /opt/vp/scope/Cargo.lock "$work/demo/Cargo.lock" 2>/dev/null
cd "$work/demo"
if ! CARGO_TARGET_DIR="$work/target" timeout 280 cargo build --offline --quiet > "$work/log" 2>&1; then
    grep -E -A8 '^error' "$work/log" | head -40
    exit 97
fi
timeout 60 "$work/target/debug/demo"
status=$?
[ $status -eq 0 ] && exit 0
exit 1
