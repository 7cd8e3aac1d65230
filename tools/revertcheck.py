"""revertcheck.py [PROP...]: undo each recorded repair in a scratch clone; the check of its property must report it again"""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
ents = [e for e in json.load(open(f'{V}/known_findings.json'))['entries'] if e['status'] == 'fixed']
sel = sys.argv[1:]


def one(e):
    c, p = e['commit'], e['property']
    d = f'/tmp/revert_{c}_{p}'
    subprocess.call(['rm', '-rf', d])
    subprocess.check_call(f'git clone -q --shared /repo {d}', shell=True)
    try:
        r = subprocess.run(f'git revert --no-commit {c}', shell=True, cwd=d, capture_output=True, text=True)
        if r.returncode:
            return f'{p} {c} conflict'
        if not os.path.exists(f'{V}/checks/{p.lower()}.py'):
            return f'{p} {c} no check'
        env = dict(os.environ, CFDTOOLS_REPO=d, SYMX_OUT=d + '/out')
        r = subprocess.run(['/opt/venv/bin/python', '-B', 'run.py', p, '--jobs', '2'], cwd=V, env=env, capture_output=True, text=True)
        return f"{p} {c} exit={r.returncode} {e['what'][:90]}"
    finally:
        subprocess.call(['rm', '-rf', d])


with ThreadPoolExecutor(4) as ex:
    for s in ex.map(one, [e for e in ents if not sel or e['property'] in sel]):
        print(s, flush=True)
