#!/bin/bash
# Builds the framework once from the committed files; the checks build again
# from /repo's working tree of the moment.
set -e
VERIF=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
S=$(mktemp -d /tmp/rapsetup.XXXXXXXX)
trap 'rm -rf "$S"' EXIT
cp -r "$VERIF"/harness/. "$S/"
cd "$S"
go build -trimpath -o "$S/rapmon" .
go build -trimpath -o "$S/rap-cli" github.com/recolude/rap/cmd/rap-cli
"$S/rapmon" list
