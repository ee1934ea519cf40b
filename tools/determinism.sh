#!/bin/bash
# determinism.sh CHECK [JOBS]: runs a check with 8 workers, with 3 and with
# address space randomisation, and compares the hashes of all runs
cd "$(dirname "$0")/.." || exit 2
d=$(mktemp -d)
trap 'rm -r "$d"' EXIT
export SIM_JOBS=${2:-24}
SIM_TRACE=$d/a python3 sim/check.py "$1" >"$d/log" || cat "$d/log"
SIM_TRACE=$d/b SIM_WORKERS=3 python3 sim/check.py "$1" >"$d/log" || cat "$d/log"
SIM_TRACE=$d/c SIM_ASLR=1 python3 sim/check.py "$1" >"$d/log" || cat "$d/log"
python3 - "$1" "$d" <<'P'
import json, sys
a, b, c = (json.load(open(sys.argv[2] + "/" + x)) for x in "abc")
n = sum(map(len, a.values()))
for name, t in (("3 workers", b), ("ASLR", c)):
    diff = [(k, i) for k in a for i in range(max(len(a[k]), len(t.get(k, [])))) if a[k][i:i + 1] != t.get(k, [])[i:i + 1]]
    print("%s, %s: %d runs, %d differ %s" % (sys.argv[1], name, n, len(diff), diff[:8]))
P
