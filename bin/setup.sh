#!/bin/bash
# Nothing is kept between runs; this only proves that the tools work and warms the Go build cache.
set -e
cd "$(dirname "$0")/.."
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
D=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf "$D"' EXIT
cp -r harness "$D/harness"
(cd "$D/harness" && CGO_ENABLED=0 go build -o "$D/h" . && CGO_ENABLED=1 go build -race -o "$D/hr" .)
cd spec
for m in *.tla; do
  java -Dfile.encoding=UTF-8 -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$D/sany" 2>&1 || { cat "$D/sany"; exit 1; }
done
echo setup done
