#!/bin/bash
# newseed.sh <id> <property> <pkgdir> <needs> <what> : reads a python edit script on stdin
# (edits files under the current directory, a scratch copy of /repo); expects
# /tmp/seed/<id>_test.go as the demonstration. Confirms the change and stores it.
id=$1 prop=$2 pkg=$3 needs=$4 what=$5
W=/tmp/seedrepo; rm -rf /tmp/seedrepo; git -C /repo worktree prune; cp -a /repo /tmp/seedrepo; cd $W; git checkout -q -- .
cat > /tmp/seed/edit.py; python3 /tmp/seed/edit.py || exit 1
D=/verif/seeded/$id; mkdir -p $D
git diff > $D/patch.diff; [ -s $D/patch.diff ] || { echo "no change"; exit 1; }
cp /tmp/seed/${id}_test.go $D/demo_test.go
EX=""; [ -n "$EXTRA" ] && cp "$EXTRA" $D/fake_test.go && EX=",\"\$R/$pkg/zz_fake_test.go\":\"\$D/fake_test.go\""
cat > $D/demo.sh <<X
#!/bin/sh
D=\$(cd "\$(dirname "\$0")" && pwd)
T=\$(mktemp -d)
trap 'rm -rf "\$T"' EXIT
R=\$(pwd)
cat > "\$T/o.json" <<Y
{"Replace":{"\$R/$pkg/zz_demo_test.go":"\$D/demo_test.go"$EX}}
Y
export GOROOT=/opt/veriftools/go1.23.12 GOPATH=\${GOPATH:-/root/go} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=0
export TMPDIR="\$T" HOME=\${HOME:-/root}
cd "\$R" && /opt/veriftools/go1.23.12/bin/go test -count=1 -vet=off -timeout 120s -overlay "\$T/o.json" -run '^TestDemo\$' ./$pkg
X
chmod +x $D/demo.sh
python3 - "$D" "$prop" "$needs" "$what" <<'X'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
X
. /tmp/env.sh
go build ./... || { echo "DOES NOT BUILD"; exit 1; }
go test -count=1 $(go list ./... | grep -v mongodb) 2>&1 | grep -v "^ok\|no test files"
(cd /repo && sh $D/demo.sh >/tmp/seed/clean.log 2>&1); a=$?
(cd $W && sh $D/demo.sh >/tmp/seed/bug.log 2>&1); b=$?
echo "$id: demo clean=$a (want 0) bug=$b (want nonzero)"
grep -m3 -- "demo_test.go" /tmp/seed/bug.log
cd /verif && VERIF_REPO=$W python3 check.py $prop | cut -c1-400 | tail -8
