"""dev tool: fixed.py 'C25 abc1234 what failed' ..."""
import json, sys
p='/verif/known_findings.json'; k=json.load(open(p))
for l in sys.argv[1:]:
    e="fixed: property="+l
    if e not in k["fixed"]: k["fixed"].append(e)
json.dump(k,open(p,'w'),indent=1)
