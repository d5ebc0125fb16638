#!/bin/sh
# bundle.sh SRC OUT: bundles the TypeScript wrapper in the directory SRC (with generated.ts) into OUT
set -e
here=$(cd "$(dirname "$0")" && pwd)
mods=${RTBOT_NODE_MODULES:-/opt/veriftools/node/node_modules}
NODE_PATH=$mods "$mods/esbuild/bin/esbuild" "$1/index.ts" --bundle --platform=node --format=cjs --log-level=error --target=es2022 \
  --tsconfig-raw='{"compilerOptions":{"experimentalDecorators":true,"useDefineForClassFields":true}}' \
  --alias:class-transformer="$here/class-transformer.js" --alias:@rtbot-dev/wasm="$here/wasm.js" --alias:zod="$mods/zod/v3/index.cjs" \
  --outfile="$2"
