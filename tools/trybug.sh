#!/bin/bash
# trybug.sh ID: verify a planted bug in a scratch copy: demo passes before, fails after; builds; stable tests pass
ID=$1; S=/verif/seeded/$ID
git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
run_demo() { t=$(mktemp -d /tmp/dm.XXXXXX); cp -r $S/. $t/; rm -f $t/*.diff $t/meta.json; (cd /repo && timeout 300 bash $t/demo.sh >/tmp/demo.out 2>&1); r=$?; rm -rf $t; echo "  demo: $r  $(tail -1 /tmp/demo.out)"; return $r; }
run_demo || { echo "BAD: demo fails on the unchanged tree"; exit 1; }
git -C /repo apply $S/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
run_demo && { echo "BAD: demo passes with the patch"; exit 1; }
if [ "$2" != notest ]; then
bash /opt/vp/build.sh >/tmp/bb.log 2>&1 || { echo "BAD: build"; exit 1; }
bash /opt/vp/test.sh /tmp/tt.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/tt.json'))
def names(x):
    for k in ('stable','passed','pass','tests'):
        if k in x: return x[k]
print('  stable', len(names(b) or []), 'failing now:', [n for n in (names(b) or []) if n not in set(names(t) or [])][:5])
P
fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif; timeout 900 python3 check.py $P quick > /tmp/chk.out 2>&1; echo "  check $P: rc=$? $(grep -m1 VIOLATION /tmp/chk.out) $(grep -m1 -A3 VIOLATION /tmp/chk.out | cut -c1-300|tail -1)"
