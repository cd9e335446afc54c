#!/bin/bash
# tryseed.sh ID [norebuild]: demo on the clean build, then with the patch: build, demo, check
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
bash $S/demo.sh >/tmp/ts.out 2>&1; echo "clean demo rc=$?  $(tail -1 /tmp/ts.out)"
git apply $S/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/ts.build 2>&1; echo "build rc=$?"
bash $S/demo.sh >/tmp/ts.out 2>&1; echo "patched demo rc=$?  $(tail -1 /tmp/ts.out)"
(cd /verif && python3 check.py $P; echo "check rc=$?") 2>&1 | tail -6
git checkout -q -- .
[ "$2" = norebuild ] || bash /opt/vp/build.sh >/tmp/ts.build 2>&1
