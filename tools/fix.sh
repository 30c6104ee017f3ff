#!/bin/bash
# tools/fix.sh PROP "what failed" "commit subject (without fix:)": regression-test /repo's edit, commit it, record it
set -e
[ -n "$NOREG" ] && o="x ok x" || o=$(/verif/tools/regress.sh | tail -1); echo "$o"; case "$o" in *" ok "*) ;; *) exit 1;; esac
git -C /repo commit -qam "fix: $3"
h=$(git -C /repo rev-parse --short HEAD)
python3 - "$1" "$h" "$2" <<'P'
import json,sys
p='/verif/known_findings.json'; k=json.load(open(p))
for prop in sys.argv[1].split(','):
    k['fixed'].append('fixed: property=%s %s %s'%(prop,sys.argv[2],sys.argv[3]))
json.dump(k,open(p,'w'),indent=1)
P
echo committed $h
