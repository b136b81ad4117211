#!/bin/bash
# Builds the symbolic execution engine (offline) into /verif/bin; a no-op when the binary matches the sources.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
mkdir -p "$here/bin" "$here/evidence"
sum="$(cd "$here/gosym" && cat go.mod *.go embed/* | sha256sum | cut -d' ' -f1)"
if [ -x "$here/bin/gosym" ] && [ "$(cat "$here/bin/gosym.sum" 2>/dev/null)" = "$sum" ]; then exit 0; fi
(cd "$here/gosym" && go build -o "$here/bin/gosym.$$" . && mv "$here/bin/gosym.$$" "$here/bin/gosym")
echo "$sum" > "$here/bin/gosym.sum"
