#!/bin/bash
# developer tool: confirms a planted bug (builds, passes the stable tests, demo discriminates) and says which check sees it
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 1; }
[ -n "$NODEMO" ] || { (cd /repo && bash $d/demo.sh >/tmp/sd.out 2>&1); echo "$id demo clean: $? $(tail -1 /tmp/sd.out)"; }
git -C /repo apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/sb.out 2>&1; echo "$id build: $?"
bash /opt/vp/test.sh /tmp/st.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/st.json'))
f=lambda x: set(x.get('passed',x.get('pass',[]))) if isinstance(x,dict) else set(x)
st=set(b.get('stable',b.get('passed',[])) if isinstance(b,dict) else b)
miss=st-f(t)
print("  stable tests missing:", sorted(miss)[:5], len(st))
P
[ -n "$NODEMO" ] || { (cd /repo && bash $d/demo.sh >/tmp/sd.out 2>&1); echo "$id demo patched: $? $(tail -1 /tmp/sd.out)"; }
(cd /verif && python3 check.py $p quick > /tmp/sc.out 2>&1; echo "$id check $p: $?"; grep -E "failed|VIOLATION|unavailable|hold|FAILED|case" /tmp/sc.out | cut -c1-400)
git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
