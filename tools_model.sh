#!/bin/bash
# tools_model.sh CONTRACT: counterexamples of one contract, for debugging
here="$(cd "$(dirname "$0")" && pwd)"
echo $1 | $here/bin/${GOVER:-gover} -specs $here/specs -repo ${GOVER_REPO:-/repo} -models work 2>/dev/null | tail -1 | python3 -c "
import json,sys
r=json.load(sys.stdin)
print(r['Err'])
for o in r['Obls'] or []:
  if o['Status'] in('failed','unknown'): print(o['Desc'], o['Pos'], str(o.get('ModelMap'))[:3000])
"
