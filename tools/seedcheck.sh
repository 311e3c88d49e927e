#!/bin/bash
# seedcheck.sh ID [-n]: validate one planted bug in a scratch copy and run its property's check there
# (-n: no repository tests). Development only.
id=$1
d=/verif/seeded/$id
s=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$s"' EXIT
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local
cp -a /repo "$s/repo"; cp -r $d "$s/demo"; rm -f "$s"/demo/*.diff "$s"/demo/meta.json
cd "$s/repo"
git checkout -q -- . 
timeout 300 bash "$s/demo/demo.sh" >$s/out0 2>&1 || { echo "$id: DEMO FAILS ON UNCHANGED"; tail -5 $s/out0; }
git apply "$d/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
(cd src && go build ./...) || { echo "$id: DOES NOT BUILD"; exit 1; }
if [ "$2" != -n ]; then
 (cd test && bash extract.sh >/dev/null 2>&1)
 (cd src && go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files\|^ok") | head -20
fi
timeout 300 bash "$s/demo/demo.sh" >$s/out1 2>&1 && { echo "$id: DEMO PASSES WITH THE BUG"; }
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
mkdir -p $s/v; ln -s /verif/contracts /verif/replay /verif/known-findings.txt $s/v/ 2>/dev/null
GVC=${GVC:-/tmp/gvc}
timeout 900 $GVC check -prop $p -repo "$s/repo/src" -verif $s/v >$s/chk 2>&1; echo "$id ($p): exit $?  $(grep '^VIOLATION' $s/chk | sed 's/replay=[^ ]*//')  $(grep '^failing input' $s/chk | cut -c1-160) $(grep '^property' $s/chk)"
grep "^FAIL" $s/chk | head -2 | cut -c1-220; grep -q "^property" $s/chk || tail -5 $s/chk | cut -c1-400
