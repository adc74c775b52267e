#!/bin/bash
# tools/seedcheck.sh ID [full]: apply the planted bug to /repo, run demo, tests (full) and the property's check, undo
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "dirty repo"; exit 2; }
C=0; grep -qE '^\+\+\+ .*\.(c|h|pyx|f)$' $D/patch.diff && C=1
[ -n "$SKIPCLEAN" ] || { bash $D/demo.sh >/tmp/sd.out 2>&1; echo "$1 demo clean: $? (want 0)"; }
git apply $D/patch.diff || exit 2
[ $C = 1 ] && bash /opt/vp/build.sh >/tmp/sb.out 2>&1 || [ $C = 0 ] || echo BUILDFAIL
bash $D/demo.sh >/tmp/sd.out 2>&1; echo "$1 demo patched: $? (want nonzero) $(tail -1 /tmp/sd.out | cut -c1-150)"
[ "$2" = full ] && { bash /opt/vp/test.sh /tmp/st.json >/tmp/st.out 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); s=json.load(open('/tmp/st.json'))
st=b.get('stable') or b.get('passed') or b
print('missing stable tests:', sorted(set(st)-set(s['passed'])))
P
}
cd /verif; python3-vt check.py $P 2>&1 | grep -E "VIOL|NOT DISCH|trouble|OK:" | cut -c1-400
git -C /repo checkout -- . ; [ $C = 1 ] && bash /opt/vp/build.sh >/tmp/sb.out 2>&1
git -C /repo status --porcelain
