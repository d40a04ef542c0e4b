# Sourced by every check: an offline cargo with its own target directory.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export HOME=/root PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
export CARGO_TARGET_DIR=${MON_TARGET_DIR:-/verif/target}
