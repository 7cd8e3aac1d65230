"""cost.json from evidence files (dev helper)"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = {}
for f in sorted(glob.glob(f'{V}/evidence/C*.json')):
    d = json.load(open(f))
    if d['tier'] == 'quick':
        c[d['property']] = f"about {max(1, round(d['wall_s']))} s on 8 cores, {d['coverage']['states']} paths in the quick tier"
p = f'{V}/tools/cost.json'
old = json.load(open(p)) if os.path.exists(p) else {}
old.update(c)
json.dump(old, open(p, 'w'), indent=1, sort_keys=True)
