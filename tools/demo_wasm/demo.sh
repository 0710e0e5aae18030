#!/bin/bash
# exit 0: the property holds here; nonzero: it does not. Runs the plugin that the build made (target/wasm32-wasip1/debug).
here=$(cd "$(dirname "$0")" && pwd)
node --stack-size=3000 "$here/demo.js" "$PWD/target/wasm32-wasip1/debug/swc_plugin_coverage.wasm"
