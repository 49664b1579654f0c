#!/bin/bash
# tools/stress.sh KIND [check numbers...]: rewrites a copy of the library with tools/refactor.py KIND (behaviour kept) and runs the checks on it; all must exit 0
k=$1; shift; d=/tmp/stress_$k; rm -rf "$d"; cp -a /repo "$d"; python3 /verif/tools/refactor.py "$d" $k; cd /verif
for c in ${*:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}; do
  C3_REPO=$d timeout 900 python3 check.py $c >/tmp/stress_$k.out 2>&1; echo "$k $c exit=$? $(head -1 /tmp/stress_$k.out | cut -c1-120)"; done; rm -rf "$d"
