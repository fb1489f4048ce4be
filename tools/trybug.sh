#!/bin/bash
# dev tool: trybug.sh ID...: demo on the clean tree, then patched build + tests + demo + check; undone afterwards
for id in "$@"; do
d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1; bash $d/demo.sh >/tmp/sb/$id.clean 2>&1; c=$?
git apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/sb/$id.build 2>&1; b=$?
cd /repo; bash $d/demo.sh >/tmp/sb/$id.patched 2>&1; p=$?
t=skip; [ -n "$NOTEST" ] || { bash /opt/vp/test.sh /tmp/sb/$id.json >/dev/null 2>&1; t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/sb/$id.json'))['passed'];print('ok' if not set(b)-set(o) else 'FAIL %s'%(set(b)-set(o)))"); }
cd /verif; timeout 900 ./check.py $prop > /tmp/sb/$id.check 2>&1; k=$?
git -C /repo checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1
echo "$id $prop demo clean=$c patched=$p build=$b tests=$t check=$k $(grep -c '^VIOLATION' /tmp/sb/$id.check)"
done
