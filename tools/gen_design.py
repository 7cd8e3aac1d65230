"""writes DESIGN.md from design.tpl, the checks, known_findings.json and seeded/*/meta.json"""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/tools']
from design_text import NOTES, TEXT

props = {d['id']: d for d in map(json.loads, open(f'{V}/properties.jsonl'))}
seeds = {}
for f in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    seeds[os.path.basename(os.path.dirname(f))] = json.load(open(f))
kf = json.load(open(f'{V}/known_findings.json'))['entries']
cost = json.load(open(f'{V}/tools/cost.json')) if os.path.exists(f'{V}/tools/cost.json') else {}
out = []
for k, p in props.items():
    m = importlib.import_module(f'checks.{k.lower()}').META
    how, oracle, beyond = TEXT[k]
    out.append(f"### {k} {p['title']}\n{how}\n\n- Oracle: {oracle}.\n- Bounds: {m['bounds']}.\n- Outside: {m['outside']}.\n- Assumptions: {'; '.join(m['assumptions'])}.\n"
               f"- Reaches beyond the tests: {beyond}.\n- Cost: {cost.get(k, 'seconds')}.\n")
fs = '\n'.join(f"- {e['what']}" for e in kf)
ss = '\n'.join(f"- {n} (`{d['property']}`): {d['what_it_breaks']}; needs {d['needs']}. Caught by {d['property']}." for n, d in seeds.items())
t = open(f'{V}/tools/design.tpl').read()
open(f'{V}/DESIGN.md', 'w').write(t.replace('@PROPS@', '\n'.join(out)).replace('@FINDINGS@', fs).replace('@SEEDS@', ss + '\n' + NOTES))
