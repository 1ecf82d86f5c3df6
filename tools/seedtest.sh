#!/bin/bash
# seedtest.sh NAME [notest]: confirm a planted change in /repo's working tree and undo it.
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
bash $D/demo.sh >/tmp/seed.$1.clean 2>&1; echo "$1 demo clean rc=$?"
git apply $D/patch.diff || exit 1
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILS"
bash $D/demo.sh >/tmp/seed.$1.bug 2>&1; echo "$1 demo bug rc=$? : $(tail -1 /tmp/seed.$1.bug | cut -c1-200)"
(cd /verif; timeout 900 python3 check.py $P | grep -v "given up" | tail -4 | cut -c1-420)
if [ -z "$2" ]; then bash /opt/vp/test.sh /tmp/seed.$1.json >/dev/null 2>&1; python3 /tmp/cmpbase.py /tmp/seed.$1.json | tail -1; fi
