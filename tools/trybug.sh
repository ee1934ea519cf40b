#!/bin/bash
# tools/trybug.sh ID [CHECK...]: validates a planted bug in /repo and runs the checks against it (default: its property's)
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "dirty /repo"; exit 2; }
checks="$*"
[ -n "$checks" ] || checks=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
tmp=$(mktemp -d); cp -r $d/. $tmp/; rm -f $tmp/*.diff $tmp/meta.json
if [ -z "$SKIPCLEAN" ]; then
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $tmp/demo.sh >$tmp/out 2>&1; echo "$id demo clean: $? ($(tail -1 $tmp/out | cut -c1-150))"
fi
git apply $d/patch.diff || { echo "patch does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .; cd /; rm -rf "$tmp"' EXIT
bash /opt/vp/build.sh >$tmp/build.log 2>&1 || { echo "build failed"; grep -m3 error $tmp/build.log; exit 2; }
timeout 300 bash $tmp/demo.sh >$tmp/out 2>&1; echo "$id demo patched: $? ($(tail -1 $tmp/out | cut -c1-150))"
if [ -z "$SKIPTESTS" ]; then
bash /opt/vp/test.sh $tmp/t.json >/dev/null 2>&1
python3 - $tmp/t.json <<'P'
import json,sys
t=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
s=b.get('stable') or b.get('passed') or b
print("tests passed", len(t['passed']), "failed", t['failed'][:3])
P
fi
cd /verif
for c in $checks; do
  s=$(date +%s); SIM_VERBOSE=1 python3 sim/check.py $c >$tmp/c.out 2>&1; r=$?
  echo "$id check $c: exit $r in $(( $(date +%s) - s )) s: $(grep -v '^ *\(case\|schedule\)' $tmp/c.out | grep -v '^slowest' | tail -3 | cut -c1-260 | tr '\n' ' ')"
done
