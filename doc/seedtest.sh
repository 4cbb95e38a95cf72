#!/bin/bash
# seedtest.sh ID...: does a planted bug apply, build, pass the tests and fail its demonstration?
. /opt/vp/env.sh
for id in "$@"; do
s=/verif/seeded/$id; d=$(mktemp -d /tmp/seedXXXXXX)
cp -a /repo $d/repo; cp -a $s $d/demo; rm -f $d/demo/*.diff $d/demo/meta.json
cd $d/repo; r=ok
bash $d/demo/demo.sh >$d/o1 2>&1 || { r="demo fails on the unchanged tree"; tail -5 $d/o1; }
git apply $s/patch.diff || r="patch does not apply"
go build ./... || r="does not build"
go test -vet=off -count=1 ./... >$d/t 2>&1 || { r="tests fail"; grep -- '--- FAIL' $d/t | head; }
bash $d/demo/demo.sh >$d/o2 2>&1 && r="demo passes with the patch"
echo "$id: $r"; tail -2 $d/o2
cd /; rm -rf $d
done
