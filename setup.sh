#!/bin/bash
# Builds the harness once (warms the Go cache) and parses the specification.
set -e
cd "$(dirname "$0")"
W=$(mktemp -d /tmp/rapverif.setup.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -r harness "$W/h"
(cd "$W/h" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -buildvcs=false -o "$W/rapverif" .)
cp -r spec "$W/spec"
cd "$W/spec"
for m in RapTrace RapSession RapLayout RapFaults RapV1Gen RapToolsGen RapConcur RapSmall RapDrift; do
  java -Djava.io.tmpdir="$W" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla > "$W/$m.txt" || { cat "$W/$m.txt"; exit 1; }
done
(cd "$W/h" && CGO_ENABLED=1 GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -buildvcs=false -race -o "$W/rapverif.race" .) || true
echo ready
