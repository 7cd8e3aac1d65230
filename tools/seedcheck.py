"""python tools/seedcheck.py [--nocheck] [--notest] ID... : validates planted bugs in a scratch copy of /repo and runs the property's check on it"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
ids = args or sorted(os.listdir(f'{V}/seeded'))


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', **(env or {}))
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def one(i):
    d = f'{V}/seeded/{i}'
    tmp = tempfile.mkdtemp(prefix='seed_')
    repo = f'{tmp}/repo'
    out = [i]
    try:
        sh(f'git clone -q --shared /repo {repo}', '/')
        sh(f'cp -a /repo/tests/data {repo}/tests/ 2>/dev/null; true', '/')
        env = {'PYTHONPATH': repo, 'PYTHONHASHSEED': '0'}
        shutil.copytree(d, f'{tmp}/demo')
        r0, o0 = sh(f'bash {tmp}/demo/demo.sh', repo, env, 300)
        sh('git checkout -q -- . && git clean -fdq', repo)
        ra, oa = sh(f'git apply {d}/patch.diff', repo)
        r1, o1 = sh(f'bash {tmp}/demo/demo.sh', repo, env, 300)
        out.append(f'demo clean={r0} patched={r1} apply={ra}')
        if r0 != 0 or ra or r1 == 0:
            out.append('BAD DEMO\n' + o0[-800:] + oa[-300:] + o1[-800:])
        if '--notest' not in sys.argv:
            rt, ot = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov --timeout=300 -x 2>&1 | tail -3', repo, env)
            out.append(ot.strip().splitlines()[-1])
        if '--nocheck' not in sys.argv:
            m = json.load(open(f'{d}/meta.json'))
            rc, oc = sh(f"/opt/venv/bin/python -B run.py {m['property']} --jobs 4", V, {'CFDTOOLS_REPO': repo, 'SYMX_OUT': tmp, 'PYTHONPATH': repo})
            lines = [l for l in oc.splitlines() if 'failed=' in l or 'VIOLATION' in l or 'ERROR' in l or 'configurations' in l]
            out.append(f"check {m['property']} exit={rc} {'CAUGHT' if rc == 1 and 'VIOLATION' in oc else 'MISSED'} " + ' | '.join(l[:200] for l in lines[:3]))
    finally:
        shutil.rmtree(tmp)
    return '\n   '.join(out)


with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
