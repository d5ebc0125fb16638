#!/bin/sh
# gen.sh REPO OUT TARGET: bundles the repository's generator with the stand-ins for packages that are not here and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
mods=${RTBOT_NODE_MODULES:-/opt/veriftools/node/node_modules}
repo=$1 out=$2 target=$3
mkdir -p "$out/dist" "$out/out-$target"
cp -R "$repo/tools/generator/templates" "$out/"
NODE_PATH=$mods "$mods/esbuild/bin/esbuild" "$repo/tools/generator/src/index.ts" --bundle --platform=node --format=cjs --log-level=error \
  --alias:yaml="$here/yaml.js" --alias:prettier="$here/prettier.js" --alias:json-schema-to-typescript="$here/json-schema-to-typescript.js" \
  --alias:json-schema-to-zod="$here/json-schema-to-zod.js" --outfile="$out/dist/index.js"
sources=$(cd "$repo" && { ls libs/std/include/rtbot/std/*.md; ls libs/core/include/rtbot/*.md; } | LC_ALL=C sort -r | sed "s#^#$repo/#" | tr '\n' ' ' | sed 's/ $//')
node "$out/dist/index.js" --output "$out/out-$target" --target "$target" --sources "$sources"
