"""writes MANIFEST.json (run from /verif)"""
import json

LEVEL = 'model_checking'
NOTE = ("Bounded: the real functions are executed with symbolic inputs, every feasible path within the stated bounds is enumerated and z3 decides each "
        "assertion for all values on it; counterexamples and path witnesses are replayed on the unmodified code in CPython. "
        "Trusts z3, the symbolic models of numpy/struct/files{extra} (validated by the replays) and CPython. Outside the bounds nothing is claimed. ")

CLAIMED = {
    'C01': ('', 'Mesh shapes of 2-5 nodes, 1-3 faces, up to 3 zones, every byte of every value symbolic, both byte orders.'),
    'C02': ('', 'Layouts written by an independent model of the format with symbolic contents; all orders of sections of the listed files.'),
    'C03': ('', 'Every truncation length of each listed file is one symbolic integer; every wrong count value.'),
    'C04': ('', 'Two cells (three in 2D) sharing nodes in every possible way, and fixed layouts under every renumbering of nodes and cells.'),
    'C05': ('', 'Polynomial identities over all node coordinates as exact reals; floating point rounding is outside.'),
}
EXTRA = {}
NA = {}
try:
    from manifest_more import CLAIMED as C2, NA as N2  # noqa: F401
    CLAIMED.update(C2)
    NA.update(N2)
except ImportError:
    pass

props = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks = []
for p in props:
    if p not in CLAIMED:
        continue
    extra, note = CLAIMED[p]
    checks.append(dict(
        property=p,
        quick_cmd=f"/opt/venv/bin/python -B run.py {p} --tier quick",
        thorough_cmd=f"/opt/venv/bin/python -B run.py {p} --tier thorough",
        evidence_file=f"evidence/{p}.json",
        technique="symbolic execution of the real Python code with z3 deciding every path and assertion",
        level=LEVEL,
        level_note=NOTE.format(extra=extra) + note,
    ))
na = [dict(property=p, reason=NA.get(p, 'check not built yet')) for p in props if p not in CLAIMED]
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="No hooks are needed: the code is imported from /repo's working tree on every run. See DESIGN.md."),
          open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
