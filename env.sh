export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cap-lints=warn" RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="${VERIF_DIR:-/verif}/target"
