#!/bin/bash
# tools/trybug.sh ID [check args]: what vcheck --bug does, quicker: apply, build, test, demo, check, undo.
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 9
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "/repo is dirty"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/tb.log 2>&1
bash $d/demo.sh >/tmp/tb.demo0 2>&1; echo "$id demo clean: $? $(tail -1 /tmp/tb.demo0 | cut -c1-150)"
fi
git apply $d/patch.diff || { echo "$id does not apply"; exit 9; }
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || { echo "$id build failed"; tail -20 /tmp/tb.log; exit 9; }
bash /opt/vp/test.sh /tmp/tb.json >/tmp/tb.log 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/tb.json'))
def passed(x): 
    return set(x.get('stable',x.get('passed',x.get('pass',[])))) if isinstance(x,dict) else set()
print("$id tests missing:", sorted(passed(b)-passed(r))[:5])
P
bash $d/demo.sh >/tmp/tb.demo1 2>&1; echo "$id demo patched: $? $(tail -1 /tmp/tb.demo1 | cut -c1-150)"
fi
if [ -z "$NOCHECK" ]; then
(cd /verif; for p in ${PROPS:-$prop}; do t=$(date +%s); timeout 900 ./check $p ${@:2} >/tmp/tb.check 2>&1; echo "$id check $p: $? in $(( $(date +%s)-t ))s"; grep "violated\|VIOLATION\|error" /tmp/tb.check | cut -c1-300; done)
fi
