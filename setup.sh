#!/bin/bash
# Builds what the checks share once, so that the Go build cache is warm; needs no network.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh 2>/dev/null
for t in tools/*/go.mod; do
  d=$(dirname "$t")
  (cd "$d" && GOFLAGS=-mod=mod go build -o /dev/null . ) || exit 1
done
chmod +x run.sh
# the specifications parse
for f in specs/*.tla; do
  (cd specs && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$f")" >/tmp/sany.$$ 2>&1) || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
mkdir -p evidence
exit 0
