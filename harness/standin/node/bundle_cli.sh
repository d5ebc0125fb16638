#!/bin/sh
# bundle_cli.sh ENTRY RTBOT OUT: bundles the command line tool around ENTRY with the JavaScript package whose sources are in RTBOT
set -e
here=$(cd "$(dirname "$0")" && pwd)
mods=${RTBOT_NODE_MODULES:-/opt/veriftools/node/node_modules}
NODE_PATH=$mods "$mods/esbuild/bin/esbuild" "$1" --bundle --platform=node --format=cjs --log-level=error --target=es2022 \
  --tsconfig-raw='{"compilerOptions":{"experimentalDecorators":true,"useDefineForClassFields":true}}' \
  --alias:class-transformer="$here/class-transformer.js" --alias:@rtbot-dev/wasm="$here/wasm.js" --alias:zod="$mods/zod/v3/index.cjs" \
  --alias:@rtbot-dev/rtbot="$2/index.ts" --alias:commander="$here/commander.js" --alias:papaparse="$here/papaparse.js" \
  --alias:zustand/vanilla="$here/zustand.js" --alias:immer="$here/immer.js" --alias:blessed="$here/blessed.js" --outfile="$3"
