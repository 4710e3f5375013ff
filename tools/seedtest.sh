#!/bin/bash
# seedtest.sh ID... : apply each seeded bug to /repo, build, run the stable tests, its demo and its property's check, undo.
# (a development aid: no check uses it)
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 1; }
  if [ -z "$SKIPCLEAN" ]; then (cd /repo && bash /opt/vp/build.sh >/tmp/sb.log 2>&1; timeout 300 bash $d/demo.sh >/tmp/demo0.log 2>&1; echo "$id demo unchanged: $?"); fi
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd /repo && bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || echo "$id BUILD FAILED"
   timeout 300 bash $d/demo.sh >/tmp/demo1.log 2>&1; echo "$id demo patched: $?"
   if [ -z "$SKIPTESTS" ]; then bash /opt/vp/test.sh /tmp/so.json >/tmp/st.log 2>&1; python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/so.json'))
base=set(b.get('passed') or b.get('stable') or b if isinstance(b,list) else b.get('passed') or b.get('stable') or b.get('tests'))
print("$id stable tests broken:", sorted(base-set(o['passed']))[:5])
P
fi
   cd /verif; timeout 900 python3 check.py $prop --tier quick --seed 1 >/tmp/sc.log 2>&1; echo "$id check $prop: rc=$?"; grep -m2 -E "VIOLATION|^MSG" /tmp/sc.log | cut -c1-300)
  git -C /repo checkout -q -- .
done
