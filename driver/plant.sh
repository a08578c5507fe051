#!/bin/bash
# plant.sh ID PROPERTY: confirm seeded/ID (patch.diff main.rs deps.toml meta.json) in /repo and undo it
id=$1; d=/verif/seeded/$id
cp /verif/driver/demo/{demo.sh,ws.py} $d/; chmod +x $d/demo.sh
export DEMO_TARGET_DIR=/tmp/demo_target
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash $d/demo.sh >/tmp/demo0.log 2>&1; echo "demo unchanged: $?"
git apply $d/patch.diff || { echo "no apply"; exit 2; }
bash $d/demo.sh >/tmp/demo1.log 2>&1; echo "demo patched: $?"; tail -3 /tmp/demo1.log
if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILS; tail -5 /tmp/b.log; }
bash /opt/vp/test.sh /tmp/out_p.json 2>&1 | tail -1; fi
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif; python3 check.py $p --tier quick >/tmp/o_plant 2>&1; echo "check $p: rc=$?"; grep VIOLATION /tmp/o_plant | head -2; grep -v VIOLATION /tmp/o_plant | head -1
