export RUSTUP_TOOLCHAIN=1.94-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${VERIF_BUILD:-/verif/.build}/target"
export CARGO_INCREMENTAL=1
