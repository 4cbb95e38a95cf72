#!/bin/bash
# builds the extraction tool
cd "$(dirname "$0")" || exit 2
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off PATH=/usr/local/go/bin:/usr/local/bin:$PATH
mkdir -p bin evidence && cd tool && go build -o ../bin/dv.new . && mv ../bin/dv.new ../bin/dv
