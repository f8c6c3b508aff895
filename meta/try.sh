#!/bin/bash
# try.sh ID [PROPS]: build and test /repo with seeded/ID, run its demonstration and the checks, undo.
V=$(dirname "$(dirname "$(readlink -f "$0")")"); ID=$1; D=$V/seeded/$ID
P=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
git -C /repo apply --check "$D/patch.diff" || exit 9
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "base build fails"; exit 9; }
(cd /repo && timeout 300 bash "$D/demo.sh" >/tmp/s/demo0 2>&1); r0=$?
git -C /repo apply "$D/patch.diff"
bash /opt/vp/build.sh >/tmp/s/build 2>&1 || { echo "BUILD FAILS"; exit 9; }
bash /opt/vp/test.sh /tmp/s/t.json >/dev/null 2>&1
t=$(python3 -c "
import json;d=json.load(open('/tmp/s/t.json'));b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
p=d.get('passed') or [];print('ok' if b<=set(p) else 'FAIL %s'%(b-set(p)))")
(cd /repo && timeout 300 bash "$D/demo.sh" >/tmp/s/demo1 2>&1); r1=$?
echo "$ID demo base=$r0 patched=$r1 tests=$t"
cd $V; ./check $P --no-evidence | grep -v "^OK"
