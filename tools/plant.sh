#!/bin/bash
# plant.sh <id>: takes the uncommitted change of /repo as seeded bug <id>
# (demo.rs and meta.json already in seeded/<id>), confirms it and undoes it.
id=$1; D=/verif/seeded/$id
cd /repo || exit 2
if git diff --quiet; then git apply $D/patch.diff || exit 2; else git diff > $D/patch.diff; fi
[ -f $D/demo.sh ] || cp /verif/tools/demo.sh.tmpl $D/demo.sh
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
if [ -z "$FAST" ]; then
bash /tmp/w/st.sh | tail -n 2
bash $D/demo.sh >/tmp/w/demo.out 2>&1; echo "demo with bug: $? (want nonzero)"; tail -n 2 /tmp/w/demo.out
fi
/verif/check.sh $prop quick >/tmp/w/chk.out 2>&1; echo "check $prop: $? (want 1)"; grep -m1 VIOLATION /tmp/w/chk.out
git checkout -q -- .
if [ -z "$FAST" ]; then
bash /opt/vp/build.sh >/tmp/w/build.log 2>&1 || echo "BUILD"
bash $D/demo.sh >/tmp/w/demo.out 2>&1; echo "demo without: $? (want 0)"; tail -n 2 /tmp/w/demo.out
fi
git status --short
