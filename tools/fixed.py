"""fixed.py PROP HASH 'what failed' ...: adds entries to known_findings.json (development aid)."""
import json, sys
k = json.load(open('/verif/known_findings.json'))
a = sys.argv[1:]
while a:
    k['fixed'].append(f"fixed: property={a[0]} {a[1]} {a[2]}")
    a = a[3:]
json.dump(k, open('/verif/known_findings.json', 'w'), indent=1)
