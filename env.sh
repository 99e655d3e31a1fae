# Sourced by the scripts here: one set of build settings, everything offline.
export VERIF_ROOT="${VERIF_ROOT:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}"
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$VERIF_ROOT/target"
export CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_OPT_LEVEL
