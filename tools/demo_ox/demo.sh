#!/bin/bash
# exit 0: the property holds here; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2025-05-06 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTFLAGS="--cfg dst_hooks"
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
cp -r "$here/Cargo.toml" "$here/Cargo.lock" "$here/src" "$work/" || exit 3
cargo build --offline --manifest-path "$work/Cargo.toml" --target-dir "$work/target" >"$work/log" 2>&1 || { tail -30 "$work/log"; exit 3; }
"$work/target/debug/demo"
