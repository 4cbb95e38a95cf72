#!/bin/bash
# replay.sh FILE: run the history recorded in a replay file against /repo's current tree
f=$(readlink -f "$1"); cd "$(dirname "$0")/replay" || exit 2
. /opt/vp/env.sh
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp *.go go.mod go.sum "$d"/ && cd "$d" && go build -o r . && ./r run "$f"
