#!/bin/bash
# seedtry.sh ID [-n]: confirm a planted bug in the scratch tree /tmp/sd/repo
# (built in /tmp/sd/build): demo passes without and fails with it, tests pass,
# and the property's quick check reports it (-n: skip tests).
id=$1; S=/verif/seeded/$id; R=/tmp/sd/repo
. /opt/vp/env.sh
cd $R && git checkout -q -- . && git checkout -q --detach $(git -C /repo rev-parse HEAD) || exit 9
ninja -C /tmp/sd/build >/tmp/sd/n.log 2>&1 || { echo "base build failed"; exit 9; }
bash $S/demo.sh; echo "demo unchanged: rc=$? (want 0)"
git apply $S/patch.diff || exit 9
ninja -C /tmp/sd/build >/tmp/sd/n.log 2>&1 || { tail -20 /tmp/sd/n.log; exit 9; }
bash $S/demo.sh; echo "demo patched: rc=$? (want !=0)"
if [ "$2" != "-n" ]; then ctest --test-dir /tmp/sd/build -j8 --repeat until-pass:3 --timeout 300 -E '^(DDNoiseFunctionalityTest\.|QPE/QPE\.)' >/tmp/sd/ct.log 2>&1; grep -E "tests passed|Failed|\*\*\*" /tmp/sd/ct.log | head; fi
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
(cd /verif && VERIF_SEED=1 MQT_REPO=$R timeout 900 python3 check.py $p quick >/tmp/sd/chk-$id.out 2>&1; echo "check $p: rc=$? (want 1)"; grep -A1 VIOLATION /tmp/sd/chk-$id.out | cut -c1-200 | head -4)
git checkout -q -- .
