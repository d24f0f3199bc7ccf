#!/bin/bash
# Builds the driver once so that the go build cache is warm, and checks that the tools that the checks need are there.
set -e
cd "$(dirname "$0")"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp -r harness "$d/harness"
echo "{\"Replace\":{\"/repo/tf/zz_verif.go\":\"$PWD/overlay/tf_verif.go\"}}" > "$d/overlay.json"
(cd "$d/harness" && go build -overlay "$d/overlay.json" -o "$d/drv" . && go build -overlay "$d/overlay.json" -race -o "$d/drvr" .)
test -f /opt/veriftools/tla/tla2tools.jar
java -version 2>/dev/null
