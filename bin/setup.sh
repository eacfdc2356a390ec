#!/bin/bash
# Warms the build cache: the driver against /repo's working tree, and TLC.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly PATH=/opt/veriftools/go1.27.3/bin:$PATH
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
(cd driver && go build -o "$T/drv" .)
java -version >/dev/null 2>&1
echo ok
