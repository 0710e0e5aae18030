export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2025-05-06
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=/verif/target
