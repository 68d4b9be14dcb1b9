#!/bin/bash
# dev/trial.sh ID...: confirms planted bugs in a scratch copy and shows which checks see them.
cd /verif
for id in "$@"; do
d=/verif/seeded/$id
w=/tmp/trial.$id
rm -rf "$w"; cp -a /repo "$w"; cp -a "$d" "$w.demo"; rm -f "$w.demo/patch.diff" "$w.demo/meta.json"
s="$id:"
. ./env.sh
(cd "$w" && bash "$w.demo/demo.sh" >/tmp/trial.$id.log 2>&1) && s="$s demo-clean=ok" || s="$s DEMO-CLEAN-FAILS"
git -C "$w" apply "$d/patch.diff" || s="$s NOAPPLY"
mkdir -p /tmp/trial.$id.mod; cp /repo/go.mod /repo/go.sum /tmp/trial.$id.mod
export GOFLAGS="-mod=mod -modfile=/tmp/trial.$id.mod/go.mod"
(cd "$w" && go build ./... && go test -vet=off -count=1 ./... >>/tmp/trial.$id.log 2>&1) && s="$s tests=pass" || s="$s TESTS-FAIL"
(cd "$w" && bash "$w.demo/demo.sh" >>/tmp/trial.$id.log 2>&1) && s="$s DEMO-BUG-PASSES" || s="$s demo-bug=fails"
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
props=${PROPS:-$prop}
for p in $props; do
VERIF_REPO=$w VERIF_OUT=/tmp/trial.$id.ev ./check.sh $p > /tmp/trial.$id.$p.out 2>&1 && s="$s $p:MISSED" || s="$s $p:caught"
done
echo "$s"
rm -rf "$w" "$w.demo" /tmp/trial.$id.ev /tmp/trial.$id.mod
done
