export HOME=${HOME:-/root}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
unset RUST_LOG RUST_BACKTRACE RUSTFLAGS CARGO_PROFILE_DEV_DEBUG
# enables the hooks in /repo
export RUSTFLAGS='--cfg fledger_verif'
export CARGO_TARGET_DIR=/verif/harness/target
