#!/bin/bash
# tools/seed.sh ID PROP "needs" "what it breaks": records /repo's working-tree diff as a planted bug and confirms it
set -u
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
git -C /repo diff > /tmp/seed.diff
[ -s /tmp/seed.diff ] && cp /tmp/seed.diff $D/patch.diff || { git -C /repo apply $D/patch.diff || exit 9; }
[ $# -ge 4 ] && python3 -c "import json,sys; json.dump({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]},open('$D/meta.json','w'),indent=1)" "$2" "$3" "$4"
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo BUILD FAILS; tail -5 /tmp/seed.build; }
bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
s=b.get('stable') or b.get('passed') or b.get('stable_tests') or b
s=s if isinstance(s,list) else list(s)
print('tests missing:', [t for t in s if t not in set(r['passed'])][:5], len(r['passed']))
P
(timeout 300 bash $D/demo.sh >/tmp/seed.demo 2>&1); echo "demo with patch: $? (want nonzero)"; tail -2 /tmp/seed.demo
timeout 900 python3 /verif/bin/check.py $P --tier quick | cut -c1-300 | tail -4; echo "check rc ${PIPESTATUS[0]} (want 1)"
git -C /repo checkout -- .
bash /opt/vp/build.sh >/tmp/seed.build 2>&1
(timeout 300 bash $D/demo.sh >/tmp/seed.demo 2>&1); echo "demo clean: $? (want 0)"; tail -2 /tmp/seed.demo
