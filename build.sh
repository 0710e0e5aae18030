#!/bin/bash
# Builds the native parts of the simulators from /repo's working tree (hooks on).
. /verif/env.sh
export RUSTFLAGS="--cfg dst_hooks"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.build-lock"; flock 9
# what the tree contains decides, not its time stamps
want=$(cd /repo && find packages Cargo.toml Cargo.lock -type f \( -name '*.rs' -o -name '*.toml' -o -name 'Cargo.lock' \) -not -path '*/target/*' -not -path '*/node_modules/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
crate() {
  local m=/verif/crates/$1/Cargo.toml mark="$CARGO_TARGET_DIR/.tree-$1"
  if [ "$want" != "$(cat "$mark" 2>/dev/null)" ]; then
    # what the other crates share with this one is rebuilt too
    for o in "$CARGO_TARGET_DIR"/.tree-*; do [ -f "$o" ] && [ "$want" != "$(cat "$o")" ] && rm -f "$o"; done
    cargo clean --release --offline --manifest-path "$m" -p istanbul-oxide >/dev/null 2>&1
    [ "$1" = simmerge ] || cargo clean --release --offline --manifest-path "$m" -p swc-coverage-instrument -p xform >/dev/null 2>&1
  fi
  cargo build --release --offline --manifest-path "$m" >"$CARGO_TARGET_DIR/build-$1.log" 2>&1 || { tail -40 "$CARGO_TARGET_DIR/build-$1.log" >&2; return 1; }
  echo "$want" > "$mark"
}
# the plugin as it is deployed
wasm() {
  local m=/repo/packages/swc-plugin-coverage/Cargo.toml mark="$CARGO_TARGET_DIR/.tree-wasm" w="--release --offline --locked --target wasm32-wasip1"
  [ "$want" = "$(cat "$mark" 2>/dev/null)" ] || cargo clean $w --manifest-path "$m" -p istanbul-oxide -p swc-coverage-instrument -p swc-plugin-coverage >/dev/null 2>&1
  cargo build $w --manifest-path "$m" >"$CARGO_TARGET_DIR/build-wasm.log" 2>&1 || { tail -40 "$CARGO_TARGET_DIR/build-wasm.log" >&2; return 1; }
  echo "$want" > "$mark"
}
for c in ${CRATES:-addon simmerge simxform plughost wasm}; do case $c in wasm) wasm;; *) crate $c;; esac || exit 2; done
