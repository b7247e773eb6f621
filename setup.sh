#!/bin/bash
# Builds the analyser once, to warm the build cache; every check rebuilds it.
set -eu
cd "$(dirname "$0")/sa"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  [ -x "$d/go" ] && PATH="$d:$PATH" && break
done
export PATH
go vet . && go build -o /dev/null .
