#!/bin/bash
# check.sh PROPERTY: decide one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off PATH=/usr/local/go/bin:/usr/local/bin:$PATH
[ -x bin/dv ] && [ -z "$(find tool -newer bin/dv -name '*.go')" ] || ./setup.sh || exit 2
exec ./bin/dv check "$1"
