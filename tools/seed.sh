#!/bin/bash
# tools/seed.sh ID [CHECK...]: confirm a planted bug in a scratch copy of /repo and run its property's check (and others) on it.
here="$(cd "$(dirname "$0")/.." && pwd)"; id=$1; shift
d=$here/seeded/$id; wt=/tmp/seed.$id
rm -rf "/tmp/seed.$id"; mkdir "$wt"; git -C ${SRC:-/repo} archive HEAD | tar x -C "$wt"; (cd "$wt" && git init -q && git add -A -f && git -c user.name=x -c user.email=x@x commit -qm x)
export PYTHONDONTWRITEBYTECODE=1
(cd "$wt" && timeout 300 bash "$d/demo.sh" >/tmp/seed.$id.demo0 2>&1); echo "demo unchanged rc=$? (want 0)"
git -C "$wt" apply "$d/patch.diff" || exit 3
(cd "$wt" && timeout 300 bash "$d/demo.sh" >/tmp/seed.$id.demo1 2>&1); echo "demo patched rc=$? (want nonzero)"
sed "s#/repo#$wt#g" /opt/vp/test.sh > /tmp/seed.$id.test.sh
if [ -z "$NOTEST" ]; then bash /tmp/seed.$id.test.sh /tmp/seed.$id.json >/tmp/seed.$id.log 2>&1
/usr/bin/python3 - "$id" <<'P'
import json,sys
t=json.load(open(f'/tmp/seed.{sys.argv[1]}.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(t['passed']); print('stable tests broken:',len(m),sorted(m)[:3])
P
fi
prop=$(/usr/bin/python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for p in $prop "$@"; do (cd $here; FRM_REPO=$wt ./check $p >/tmp/seed.$id.$p 2>&1; echo "check $p rc=$? (want 1) $(grep -m1 VIOLATION /tmp/seed.$id.$p | cut -c1-300)"); done
rm -rf "/tmp/seed.$id"
