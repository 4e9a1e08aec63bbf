#!/bin/bash
# plant.sh ID [TIER]: apply seeded/ID/patch.diff to /repo, build + baseline tests, run its demo and its check, undo.
# ID may also be "new:ID": first record the current diff of /repo as the patch.
V=/verif; I=$1; T=${2:-quick}
case $I in new:*) I=${I#new:}; mkdir -p $V/seeded/$I; git -C /repo diff > $V/seeded/$I/patch.diff; git -C /repo checkout -- . ;; esac
D=$V/seeded/$I; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 1; }
base() { bash /opt/vp/build.sh >/tmp/plb.log 2>&1 && bash /opt/vp/test.sh /tmp/plo.json >/tmp/plt.log 2>&1; python3 - <<'Q'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/plo.json'));print("tests missing",len(set(b['stable'])-set(o['passed'])))
Q
}
X=$(mktemp -d); cp -r $D/. $X/; rm -f $X/patch.diff $X/meta.json
if [ -z "$SKIPBASE" ]; then bash /opt/vp/build.sh >/tmp/plb.log 2>&1; (cd /repo && timeout 300 bash $X/demo.sh >/tmp/pld.log 2>&1); echo "$I demo clean rc=$? (want 0)"; fi
git -C /repo apply $D/patch.diff || exit 1
[ -z "$SKIPBASE" ] && { base; (cd /repo && timeout 300 bash $X/demo.sh >/tmp/pld2.log 2>&1); echo "$I demo patched rc=$? (want !=0)"; tail -2 /tmp/pld2.log; }
( cd $V && time timeout 900 sim/check.sh $P $T ) > /tmp/plc.log 2>&1; echo "$I check $P rc=$? (want 1)"; grep -a -m1 -A2 VIOLATION /tmp/plc.log; grep -a real /tmp/plc.log
git -C /repo checkout -- .; rm -rf "$X"
[ -z "$SKIPBASE" ] && bash /opt/vp/build.sh >/tmp/plb.log 2>&1
git -C $V checkout -- evidence 2>/dev/null; true
