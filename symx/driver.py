"""Runs the configurations of a property, replays counterexamples and witnesses on the real code."""
from builtins import print  # noqa: A004 (scenarios may record prints)
import hashlib
import json
import multiprocessing
import os
import random
import sys
import time
import traceback

os.environ.setdefault('MPLBACKEND', 'Agg')

import z3

from . import core, loader, world
from .core import Deadline, Engine, Inconclusive, PathAbort, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('SYMX_OUT', VERIF)


class Tracer:
    """records which repository functions were entered while executing symbolically"""

    TOOL = 4

    def __init__(self):
        self.seen = set()
        self.on = False

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, 'symx')
        except ValueError:
            return
        prefix = os.path.join(loader.REPO, 'cfdtools') + os.sep

        def cb(code, off):
            if self.on and code.co_filename.startswith(prefix):
                self.seen.add(f"{os.path.relpath(code.co_filename, loader.REPO)}:{code.co_qualname}")
                return mon.DISABLE
            if not code.co_filename.startswith(prefix):
                return mon.DISABLE

        mon.register_callback(self.TOOL, mon.events.PY_START, cb)
        mon.set_events(self.TOOL, mon.events.PY_START)


TRACER = None


def eval_observed(model, x):
    """value of an observed (possibly symbolic) structure under a model"""
    from .values import Sym, SymBool, SymF64, SymInt, SymReal

    if isinstance(x, (list, tuple)):
        return [eval_observed(model, e) for e in x]
    if isinstance(x, SymInt):
        r = model.eval(x.t, model_completion=True)
        return r.as_long() if z3.is_int_value(r) else None
    if isinstance(x, SymBool):
        return z3.is_true(model.eval(x.t, model_completion=True))
    if isinstance(x, SymF64):
        r = model.eval(x.t, model_completion=True)
        return world.dec_value({'bits': r.as_long()}) if z3.is_bv_value(r) else None
    if isinstance(x, SymReal):
        r = model.eval(x.t, model_completion=True)
        if z3.is_algebraic_value(r):
            r = r.approx(20)
        if not z3.is_rational_value(r):
            return None
        return r.numerator_as_long() / r.denominator_as_long()
    return x


def obs_equal(a, b):
    if a is None or b is None:
        return True
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return (
            isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b)
            and all(obs_equal(x, y) for x, y in zip(a, b))
        )
    if isinstance(a, float) or isinstance(b, float):
        try:
            return a == b or (a != a and b != b) or abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
        except TypeError:
            return False
    return a == b


def run_config(job):
    """explore one configuration symbolically; returns a plain dict"""
    global TRACER
    (prop, scen_name, fn, cfg, opts) = job
    if TRACER is None:
        TRACER = Tracer()
        TRACER.start()
    t0 = time.time()
    budget = opts.get('budget', 120)
    deadline = t0 + budget
    hard = opts.get('hard_deadline')
    if hard is not None:
        deadline = min(deadline, hard)
    e = Engine(seed=opts.get('seed', 1), query_timeout_ms=opts.get('qtimeout', 20000), deadline=deadline)
    core.ENG = e
    st = e.stats
    rng = random.Random(opts.get('seed', 1))
    res = dict(scenario=scen_name, cfg=cfg, violation=None, spurious=[], undecided=[], exhausted=False, validated=0,
               mismatches=[], samples=[], reached=set(), expected_raises=0)
    max_replay = opts.get('max_replay', 40)
    TRACER.on = True
    try:
        while True:
            if time.time() > deadline:
                res['undecided'].append('time budget exhausted')
                break
            e.start_path()
            w = None
            exc = None
            end = 'ok'
            try:
                TRACER.on = True
                w = world.SymWorld(e, cfg)
                fn(w, **cfg)
            except PathAbort:
                end = 'abort'
            except Unsupported as x:
                end, exc = 'undecided', f"Unsupported: {x}" + _where(x)
            except Inconclusive as x:
                end, exc = 'undecided', f"Inconclusive: {x}"
            except Deadline:
                res['undecided'].append('time budget exhausted')
                break
            except (Exception, SystemExit) as x:
                end, exc = 'exception', f"{type(x).__name__}: {str(x)[:300]}" + _where(x)
            except z3.Z3Exception as x:
                end, exc = 'undecided', f"z3: {x}"
            finally:
                TRACER.on = False
            if w is not None:
                res['reached'] |= w.reached
            if end == 'abort':
                st.aborted += 1
            else:
                st.paths += 1
                cex = None
                try:
                    cex = e.discharge()
                    model = None
                    if cex is not None:
                        model, failed = cex
                    elif end in ('exception', 'undecided'):
                        model, failed = e.get_model(), [exc]
                    elif st.paths <= max_replay or st.paths % 16 == 0 and st.paths < 16 * max_replay:
                        model, failed = e.diverse(e.get_model(), rng), None
                except Inconclusive as x:
                    res['undecided'].append(str(x))
                    model = None
                    try:
                        model, failed = e.get_model(), None
                    except (Inconclusive, PathAbort):
                        model = None
                except Deadline:
                    res['undecided'].append('time budget exhausted')
                    break
                if model is not None:
                    def replay(model):
                        vals = {n: world.model_value(model, v, k) for n, (v, k) in e.vars.items()}
                        fails, cexc, obs = world.run_concrete(fn, cfg, vals)
                        return vals, fails, cexc, obs, [f for f in fails if f != '__skip__'] + ([cexc] if cexc else [])

                    vals, fails, cexc, obs, real = replay(model)
                    if not real and (cex is not None or end == 'exception') and len(res['spurious']) + len(res['undecided']) < 3:
                        first = vals, fails, cexc, obs, real
                        try:
                            for m2 in e.alternatives(model):
                                vals, fails, cexc, obs, real = replay(m2)
                                if real and not (cexc or '').startswith('HARNESS'):
                                    break
                            else:
                                vals, fails, cexc, obs, real = first
                        except Deadline:
                            vals, fails, cexc, obs, real = first
                    skipped = '__skip__' in fails
                    if real and not (cexc or '').startswith('HARNESS'):
                        res['violation'] = dict(values=vals, failed=real, symbolic=failed, by='solver' if cex is not None or end == 'exception' else 'replay')
                        break
                    if cexc and cexc.startswith('HARNESS'):
                        res['spurious'].append(dict(values=vals, failed=[cexc], why='harness error'))
                    elif cex is not None:
                        res['spurious'].append(dict(values=vals, failed=failed, why='not reproduced'))
                        if len(res['spurious']) >= 3:
                            break
                    elif end == 'exception':
                        res['undecided'].append('encoding gap: ' + exc)
                    elif end == 'undecided':
                        res['undecided'].append(exc)
                    elif not skipped:
                        sym = [(l, eval_observed(model, v)) for l, v in w.observed]
                        if len(sym) == len(obs) and all(a[0] == b[0] and obs_equal(a[1], b[1]) for a, b in zip(sym, obs)):
                            res['validated'] += 1
                        else:
                            bad = next((str((a, b))[:300] for a, b in zip(sym, obs) if not (a[0] == b[0] and obs_equal(a[1], b[1]))), 'length')
                            res['mismatches'].append(bad)
                    if len(res['samples']) < 2 and end == 'ok':
                        res['samples'].append({k: v for k, v in list(vals.items())[:24]})
            if len(res['undecided']) > 50:
                res['undecided'].append('too many undecided paths')
                break
            try:
                more = e.backtrack()
            except Deadline:
                res['undecided'].append('time budget exhausted')
                break
            except (Unsupported, Inconclusive) as x:
                res['undecided'].append(f"{type(x).__name__}: {x}")
                break
            if not more:
                res['exhausted'] = True
                break
    except Exception as x:  # harness failure
        res['spurious'].append(dict(values={}, failed=[f"harness: {type(x).__name__}: {x}"], why=traceback.format_exc()[-1500:]))
    core.ENG = None
    res['stats'] = st.as_dict()
    res['functions'] = sorted(TRACER.seen)
    res['reached'] = sorted(res['reached'])
    res['wall'] = time.time() - t0
    return res


def _where(x):
    tb = traceback.extract_tb(x.__traceback__)
    r = [f for f in tb if f.filename.startswith(os.path.join(loader.REPO, 'cfdtools'))]
    if not r:
        f = tb[-1] if tb else None
        return f" @ {os.path.basename(f.filename)}:{f.lineno}" if f else ''
    return f" @ {os.path.relpath(r[-1].filename, loader.REPO)}:{r[-1].lineno}"


def match_finding(entry, prop, scen, cfg, failed):
    if entry.get('property') != prop or entry.get('status') != 'known':
        return False
    if entry.get('scenario') not in (None, scen):
        return False
    for k, v in entry.get('cfg', {}).items():
        if cfg.get(k) != v:
            return False
    return all(any(m in f for m in entry['match']) for f in failed)


def run_property(prop, scenarios, tier, seed, meta, jobs=None, only=None):
    """scenarios: list of (name, fn, [cfg...], opts)"""
    t0 = time.time()
    total = meta.get('total_budget', {'quick': 240, 'thorough': 3000})[tier]
    todo = []
    for name, fn, cfgs, opts in scenarios:
        if only and name not in only:
            continue
        for cfg in cfgs:
            o = dict(opts)
            o['seed'] = seed
            o['hard_deadline'] = t0 + total
            todo.append((prop, name, fn, cfg, o))
    rng = random.Random(seed)
    order = list(range(len(todo)))
    # long configurations first, otherwise seeded order
    rng.shuffle(order)
    order.sort(key=lambda i: -todo[i][4].get('weight', 1))
    results = [None] * len(todo)
    violation = None
    jobs = jobs or min(8, os.cpu_count() or 1, max(1, len(todo)))
    if jobs == 1:
        for i in order:
            results[i] = run_config(todo[i])
    else:
        ctx = multiprocessing.get_context('fork')
        global _TODO
        _TODO = todo
        with ctx.Pool(jobs, maxtasksperchild=None) as pool:
            for i, r in pool.imap_unordered(_run_index, order):
                results[i] = r
                if r['violation'] is not None and os.environ.get('SYMX_ALL') is None:
                    # one reproduced violation decides the check unless it is a listed finding
                    if not any(match_finding(en, prop, r['scenario'], r['cfg'], r['violation']['failed'])
                               for en in load_findings()):
                        pool.terminate()
                        break
    return finish(prop, [r for r in results if r is not None], todo, tier, seed, meta, time.time() - t0)


_TODO = None


def _run_index(i):
    return i, run_config(_TODO[i])


def load_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['entries']


def finish(prop, results, todo, tier, seed, meta, wall):
    findings = load_findings()
    violations, known, spurious, undecided = [], [], [], []
    tot = dict(paths=0, aborted=0, forks=0, queries=0, solver_time=0.0, checks=0, concretised=0)
    funcs, reached, samples, validated, mism = set(), set(), [], 0, []
    for r in results:
        for k in tot:
            tot[k] += r['stats'][k]
        funcs |= set(r['functions'])
        reached |= {f"{r['scenario']}: {m}" for m in r['reached']}
        validated += r['validated']
        for s in r['samples'][:1]:
            if len(samples) < 6:
                samples.append(dict(scenario=r['scenario'], cfg=_js(r['cfg']), inputs=s))
        mism += [dict(scenario=r['scenario'], cfg=_js(r['cfg']), what=m) for m in r['mismatches']]
        undecided += [dict(scenario=r['scenario'], cfg=_js(r['cfg']), why=u) for u in r['undecided']]
        spurious += [dict(scenario=r['scenario'], cfg=_js(r['cfg']), **s) for s in r['spurious']]
        if r['violation']:
            v = r['violation']
            hit = [en for en in findings if match_finding(en, prop, r['scenario'], r['cfg'], v['failed'])]
            (known if hit else violations).append((r, v, hit))
    expected = set(meta.get('must_reach', []))
    complete = len(results) == len(todo)
    missing = []
    if complete and not violations:
        # an assertion is vacuous when its scenario was decided without reaching it; an undecided scenario is reported as such
        open_ = {u['scenario'] for u in undecided} | {s['scenario'] for s in spurious}
        missing = sorted(m for m in expected if not any(m in x for x in reached) and m.split(':')[0] not in open_)
    vac = [f"{r['scenario']} {r['cfg']}" for r in results if r['exhausted'] and r['stats']['paths'] == 0 and not r['violation']]
    level = 'model_checking'
    cov = dict(
        states=tot['paths'], transitions=tot['forks'] + tot['concretised'],
        traces_validated_against_impl=validated, samples=samples,
        configurations=len(results), configurations_planned=len(todo),
        exhaustive=bool(complete and all(r['exhausted'] for r in results) and not undecided and not spurious),
        paths_aborted_by_assumption=tot['aborted'], assertions_discharged=tot['checks'], solver_queries=tot['queries'],
        solver_seconds=round(tot['solver_time'], 3), functions_encoded=sorted(funcs), undecided=undecided[:20],
        undecided_count=len(undecided), witness_mismatches=mism[:10], bounds=meta.get('bounds', ''),
        outside_the_claim=meta.get('outside', ''), reached_assertions=sorted(reached)[:60],
        state_meaning='one state = one explored path (leaf of the fork tree); one transition = one solver-decided fork or enumerated value',
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=meta.get('assumptions', []),
              wall_s=round(wall, 3), violations=len(violations))
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop}: {len(results)}/{len(todo)} configurations, {tot['paths']} paths, {tot['queries']} queries, "
          f"{tot['checks']} assertions, {validated} witnesses replayed, {wall:.1f}s")
    for r, v, hit in known:
        print(f"KNOWN-FINDING: property={prop} {hit[0]['what']}")
    for u in undecided[:10]:
        print(f"INCONCLUSIVE property={prop} {u}")
    for m in mism[:5]:
        print(f"MISMATCH property={prop} {m}")
    if os.environ.get('SYMX_TIMES'):
        for r in sorted(results, key=lambda r: -r['wall'])[:15]:
            print(f"  {r['wall']:.1f}s {r['stats']['paths']} paths {r['stats']['queries']} queries {r['scenario']} {r['cfg']}")
    if violations:
        for r, v, _ in violations[:3]:
            path = write_replay(prop, r, v)
            print(f"  scenario={r['scenario']} cfg={r['cfg']} by={v['by']} failed={v['failed'][:4]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    for s in spurious[:5]:  # the encoding differs from the code there: nothing is claimed about that configuration
        print(f"INCONCLUSIVE property={prop} counterexample not reproduced: {s.get("why")}: {str(s.get("failed"))[:600]}: {json.dumps(s, default=str)[:1500]}")
    if spurious and os.environ.get('SYMX_STRICT'):
        return 2
    if missing:
        print(f"ERROR property={prop} assertions never reached (vacuous): {missing}")
        return 2
    if vac:
        print(f"ERROR property={prop} no feasible path: {vac}")
        return 2
    if tot['checks'] == 0 or len({str((u['scenario'], u['cfg'])) for u in undecided + spurious}) >= len(results):
        print(f"ERROR property={prop} nothing decided")
        return 2
    return 0


def _js(x):
    return json.loads(json.dumps(x, default=str))


def write_replay(prop, r, v):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, scenario=r['scenario'], cfg=r['cfg'], values=v['values'], failed=v['failed'])
    txt = json.dumps(body, indent=1, default=str)
    h = hashlib.sha256(txt.encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}_{h}.json")
    with open(path, 'w') as f:
        f.write(txt)
    return path
