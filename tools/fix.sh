#!/bin/bash
# fix.sh PROPERTY "commit subject" "what failed": commits /repo's change and records it [files]
if [ -n "$4" ]; then c="git commit -qm"; git -C ${R:-/repo} add $4; else c="git commit -qam"; fi; cd ${R:-/repo} && $c "fix: $2" && h=$(git rev-parse --short HEAD) && python3 - "$1" "$h" "$3" <<'PY'
import json,sys
p=''+__import__("os").environ.get("V","/verif")+'/known_findings.json'; k=json.load(open(p))
k["fixed"].append("fixed: property=%s %s %s"%tuple(sys.argv[1:4]))
json.dump(k,open(p,'w'),indent=1)
PY
