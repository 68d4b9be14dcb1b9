#!/bin/bash
# dev/seed.sh ID PROPERTY PKG "needs" "breaks" < new-files
# Takes the uncommitted change of /tmp/w (a scratch copy of /repo) as the planted bug ID; /tmp/w.demo_test.go is its demonstration in package PKG.
id=$1 prop=$2 pkg=$3
d=/verif/seeded/$id
mkdir -p $d
git -C /tmp/w diff > $d/patch.diff
cp /tmp/w.demo_test.go $d/demo_test.go
cat > $d/demo.sh <<D
#!/bin/bash
# Exit 0 if the property holds for the demonstrated case.
d=\$(cd "\$(dirname "\$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:\$PATH GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
t=\$(mktemp -d)
trap 'rm -rf "\$t"' EXIT
cp go.mod go.sum "\$t/"
export GOFLAGS="-mod=mod -modfile=\$t/go.mod"
echo "{\"Replace\":{\"\$PWD/$pkg/zz_demo_test.go\":\"\$d/demo_test.go\"}}" > "\$t/o.json"
timeout 250 go test -overlay "\$t/o.json" -vet=off -count=1 -timeout 200s -run '^TestDemo\$' ./$pkg
D
chmod +x $d/demo.sh
python3 - "$prop" "$4" "$5" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
