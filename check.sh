#!/bin/bash
# check.sh PROPERTY: decides one property by static analysis of /repo's current source.
# Exit 0: it holds. Exit 1 with a VIOLATION line: it does not, or could not be decided.
prop=$1
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
repo=${VERIF_REPO:-/repo}
scratch=$(mktemp -d) || scratch=/dev/shm/verif.$$
trap 'rm -rf "$scratch"' EXIT
fail() {
	[ "$prop" = --setup ] && { echo "$1"; exit 1; }
	mkdir -p "$here/evidence"
	echo "[{\"rule\":\"load\",\"detail\":\"$1\"}]" > "$here/evidence/$prop.violations.json"
	cat > "$here/evidence/$prop.json" <<J
{"property":"$prop","tier":"${VERIF_TIER:-quick}","seed":${VERIF_SEED:-0},"level":"other","coverage":{"explanation":"$1"},"wall_s":0,"violations":1}
J
	echo "$1"
	echo "VIOLATION property=$prop replay=$here/evidence/$prop.violations.json"
	exit 1
}
tool=$here/bin/tool
if [ ! -x "$tool" ] || [ -n "$(find "$here/tool" -name '*.go' -newer "$tool" -print -quit)" ]; then
	mkdir -p "$here/bin"
	(cd "$here/tool" && GOFLAGS=-mod=vendor go build -o "$scratch/tool" .) || fail "the analysis tool does not build"
	cp "$scratch/tool" "$tool.$$" && mv "$tool.$$" "$tool" || tool=$scratch/tool
fi
[ "$prop" = --setup ] && exit 0
mkdir -p "$scratch/mod"
cp "$repo/go.mod" "$scratch/mod/go.mod" || fail "no go.mod in the repository"
cat "$repo/go.sum" "$here/extra.sum" 2>/dev/null | sort -u > "$scratch/mod/go.sum"
export GOFLAGS="-mod=mod -modfile=$scratch/mod/go.mod"
"$tool" -p "$prop" -repo "$repo" -verif "$here" -out "${VERIF_OUT:-$here/evidence}" 2> "$scratch/err"
rc=$?
tail -c 3000 "$scratch/err" >&2
[ $rc = 0 ] || [ $rc = 1 ] || fail "the analysis tool ended with status $rc"
exit $rc
