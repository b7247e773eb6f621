#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the analyser from /verif/sa and runs the check of one property against
# the current source in /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
unset GOARCH GOOS
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  [ -x "$d/go" ] && PATH="$d:$PATH" && break
done
export PATH
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
if ! (cd "$here/sa" && go build -o "$work/verifsa" .) >"$work/build.log" 2>&1; then
  cat "$work/build.log"
  exit 2
fi
timeout -k 10 840 "$work/verifsa" check -prop "$id" -tier "$tier" -repo /repo -verif "$here"
