#!/bin/bash
# tools/rftest.sh [check ids...]: run the checks on behaviour-preserving refactorings of the library (refactors/*.diff); all must exit 0
cd /verif; CH=${*:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}
for d in refactors/*.diff; do
  rm -rf /tmp/rftest && cp -a /repo /tmp/rftest && git -C /tmp/rftest apply /verif/$d || { echo "$d does not apply"; continue; }
  for c in $CH; do C3_REPO=/tmp/rftest python3 check.py $c >/tmp/rf.out 2>&1; r=$?; echo "$(basename $d) $c exit=$r $(grep -o '[0-9]* undecided' /tmp/rf.out)"; [ $r = 0 ] || head -5 /tmp/rf.out; done
done; rm -rf /tmp/rftest
