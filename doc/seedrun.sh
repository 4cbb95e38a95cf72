#!/bin/bash
# seedrun.sh ID...: run the check of a planted bug's property against a copy of /repo with the bug
# (development only; the registered commands read /repo itself)
. /opt/vp/env.sh 2>/dev/null
export HOME=/root GOPATH=/root/go GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
for id in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
d=$(mktemp -d /tmp/seedrunXXXXXX); cp -a /repo $d/repo; mkdir $d/v; cp -a /verif/. $d/v/; rm -rf $d/v/seeded
git -C $d/repo apply /verif/seeded/$id/patch.diff || continue
o=$(cd $d/v && ./bin/dv check -repo $d/repo -root $d/v $p 2>&1); rc=$?
echo "== $id $p rc=$rc"; echo "$o" | tail -${LINES_OUT:-4} | cut -c1-300
rm -rf $d
done
