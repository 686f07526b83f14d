#!/bin/bash
# Warms the Go build cache and parses the specifications; the checks build what they need themselves.
set -e
cd "$(dirname "$0")/.."
. harness/env.sh
d=$(mktemp -d)
cp -r harness "$d/harness"
(cd "$d/harness" && for p in */; do p=${p%/}; go build -o "$d/bin-$p" "./$p"; done)
for m in spec/*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")") > "$d/sany" 2>&1 ||
    { cat "$d/sany"; exit 1; }
done
rm -rf "$d"
echo "setup done"
