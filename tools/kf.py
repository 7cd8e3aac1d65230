"""kf.py PROP COMMIT WHAT: record a repaired defect in known_findings.json"""
import json, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
a = sys.argv[1:]
for k in range(0, len(a), 3):
    d['entries'].append(dict(property=a[k], status='fixed', commit=a[k + 1], what=f"fixed: property={a[k]} {a[k + 1]} {a[k + 2]}"))
open(p, 'w').write('{"entries": [\n ' + ',\n '.join(json.dumps(e) for e in d['entries']) + '\n]}\n')
