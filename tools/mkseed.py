"""mkseed.py ID PROP FILE OLD NEW  (dev helper): writes seeded/ID/patch.diff from an edit of /repo's HEAD; OLD/NEW are @files or strings"""
import os, subprocess, sys


def mk(ident, prop, edits, needs, breaks, demo):
    import json
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    d = f'{V}/seeded/{ident}'
    os.makedirs(d, exist_ok=True)
    tmp = f'/tmp/mkseed_{os.getpid()}'
    subprocess.check_call(f'git clone -q --shared /repo {tmp}', shell=True)
    try:
        for f, old, new in edits:
            p = f'{tmp}/{f}'
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output('git diff', shell=True, cwd=tmp, text=True)
    finally:
        subprocess.check_call(['rm', '-rf', tmp])
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/demo.py', 'w').write(demo.lstrip('\n'))
    open(f'{d}/demo.sh', 'w').write('#!/bin/bash\n# exits 0 if the property holds\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                                    'export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                                    'tmp=$(mktemp -d); trap \'rm -rf "$tmp"\' EXIT\ncd "$tmp"\n/opt/venv/bin/python "$here/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{d}/meta.json', 'w'), indent=1)
