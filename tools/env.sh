# Sourced by check.sh and setup.sh.
export HOME=/root
[ -f "$HOME/.cargo/env" ] && . "$HOME/.cargo/env"
export PATH="$HOME/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
unset CARGO_PROFILE_DEV_DEBUG CARGO_BUILD_TARGET CARGO_INCREMENTAL
export TZ=UTC LC_ALL=C.UTF-8
export VERIF_ROOT=${here:?}
export CARGO_TARGET_DIR="$here/.build/target"
