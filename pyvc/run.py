"""check driver:  python3-vt -m pyvc.run P01 [--spec NAME] [-v]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
warnings.simplefilter('ignore')
for v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(v, '1')

from pyvc import ir, instr, engine, nf, prove, search, smt  # noqa

REGISTRY = {}      # property -> list of SpecFn


class SpecFn:
    def __init__(self, prop, name, fn, params, opts):
        self.prop, self.name, self.fn, self.params, self.opts = prop, name, fn, params, opts


def spec(prop, params=None, **opts):
    """register a specification; params: list of tuples -> one task each"""
    def deco(f):
        REGISTRY.setdefault(prop, []).append(SpecFn(prop, f.__name__, f, params, opts))
        return f
    return deco


STATIC = {}


def static(prop):
    """register a static (effect / frame) checker: f() -> dict(obligations=[(name, ok, detail)], functions=set, witness...)"""
    def deco(f):
        STATIC.setdefault(prop, []).append(f)
        return f
    return deco


def load(prop):
    import specs
    importlib.import_module('specs.' + prop.lower())


def bound_spec(sf, p):
    if p is None:
        return sf.fn
    args = p if isinstance(p, tuple) else (p,)
    return lambda S: sf.fn(S, *args)


def pname(p):
    if p is None:
        return ''
    return '[' + ','.join(str(x) for x in (p if isinstance(p, tuple) else (p,))) + ']'


def run_task(sf, p, tier, seed, budget):
    t0 = time.process_time()
    w0 = time.time()
    fn = bound_spec(sf, p)
    name = sf.name + pname(p)
    out = {'name': name, 'obligations': 0, 'discharged': 0, 'backends': {}, 'failed': [], 'errors': [], 'functions': [],
           'contracts': [], 'assumptions': [], 'paths': 0, 'secs': 0, 'samples': [], 'cross': 0, 'bounded': sf.opts.get('bounded'),
           'witness': None}
    z0 = dict(smt.STATS)
    nf.FACTOR = bool(sf.opts.get('factor'))
    eng = engine.Engine(max_paths=sf.opts.get('max_paths', 3000), deadline=t0 + budget * .5, smt_ms=sf.opts.get('smt_ms', 300))
    failed = []
    try:
        eng.run(fn)
    except Exception as e:
        eng.errors.append('engine: %s: %s' % (type(e).__name__, e))
        if os.environ.get('PYVC_TRACE'):
            traceback.print_exc()
    obs = list(eng.obls.values())
    per = sf.opts.get('seconds', 30 if tier == 'quick' else 120)
    mb = sf.opts.get('boxes', 300000 if tier == 'quick' else 2000000)
    for ob in obs:
        left = t0 + budget * .85 - time.process_time()
        t1 = time.process_time()
        if left <= 1 and failed:
            r = prove.Result(False, '', 'time budget exhausted')
        else:
            try:
                r = prove.prove(ob, max(2.0, min(per, left)), mb)
            except ir.Unsupported as e:
                r = prove.Result(False, '', 'unsupported: %s' % e)
                if os.environ.get('PYVC_TRACE'):
                    traceback.print_exc()
            except RecursionError:
                r = prove.Result(False, '', 'recursion limit in back end')
            except Exception as e:
                r = prove.Result(False, '', 'back end: %s: %s' % (type(e).__name__, e))
                if os.environ.get('PYVC_TRACE'):
                    traceback.print_exc()
        ob.status, ob.backend, ob.detail, ob.secs = r.ok, r.backend, r.detail, time.process_time() - t1
        if r.ok:
            out['discharged'] += 1
            be = r.backend.split(' (')[0]
            out['backends'][be] = out['backends'].get(be, 0) + 1
            if len(out['samples']) < 2:
                out['samples'].append('%s :: %s  |-  %s   [%s, %d path conditions]' % (
                    name, ob.label, ir.show(ob.goal)[:300], r.backend, len(ob.pc)))
        else:
            failed.append(ob)
            if len(failed) >= 4 and time.process_time() - t0 > 20:
                # enough evidence that the contract is not met; spend the rest on a counterexample
                pass
    if failed and len(failed) <= 8:
        # second attempt with a larger budget, so that verdicts do not hang on timing
        smt.SCALE[0] = 5.0
        for ob in list(failed):
            if time.process_time() - t0 > budget * 1.5:
                break
            try:
                r = prove.prove(ob, 2 * per, 2 * mb)
            except BaseException:
                continue
            if r.ok:
                failed.remove(ob)
                ob.status, ob.backend = True, r.backend
                out['discharged'] += 1
                out['backends'][r.backend.split(' (')[0]] = out['backends'].get(r.backend.split(' (')[0], 0) + 1
        smt.SCALE[0] = 1.0
    out['obligations'] = len(obs)
    # vacuity: some path must complete and at least one obligation must exist
    if not obs and not sf.opts.get('concrete'):
        eng.errors.append('no obligations generated (vacuous precondition?)')
    elif eng.completed == 0 and not failed and obs:
        eng.errors.append('no path of the specification completes (vacuous precondition?)')
    # vacuity guard: the precondition must be satisfiable on the real package
    crosses = 0
    rng = random.Random(seed * 7919 + hash_str(name))
    tc = time.process_time()
    ncross = sf.opts.get('cross', 25 if tier == 'quick' else 300)
    cfail = None
    tries = 0
    while crosses < ncross and tries < ncross * 40 and time.process_time() - tc < (8 if tier == 'quick' else 60):
        tries += 1
        try:
            c = search.run_concrete(fn, {}, {}, rng)
        except Exception as e:
            eng.errors.append('cross-check: %s: %s' % (type(e).__name__, e))
            if os.environ.get('PYVC_TRACE'):
                traceback.print_exc()
            break
        if c is None:
            continue
        crosses += 1
        if c.fails:
            f = max(c.fails, key=lambda f: f.margin or 0)
            if (f.margin or 0) >= 1e-4:
                cfail = {'values': c.drawn, 'choices': c.picked, 'label': f.label, 'why': f.why}
                break
    out['cross'] = crosses
    if ncross and not crosses and not sf.opts.get('nocross'):
        eng.errors.append('precondition never satisfied by a concrete input (vacuous)')
    out['paths'] = eng.paths
    out['errors'] = eng.errors
    out['functions'] = sorted(eng.touched)
    out['contracts'] = sorted(eng.contracts_used)
    out['assumptions'] = sorted(eng.assumptions)
    for ob in failed:
        out['failed'].append({'label': ob.label, 'goal': ir.show(ob.goal)[:600], 'pc': [ir.show(c)[:200] for c in ob.pc][-8:],
                              'choices': ob.choices, 'detail': ob.detail})
    w = None
    if failed or eng.errors:
        w = cfail
        if w is None:
            try:
                w = search.search(fn, failed, seed, min(sf.opts.get('search', 25), max(5, t0 + budget - time.process_time())), errors=eng.errors)
            except Exception as e:
                out['errors'].append('search: %s: %s' % (type(e).__name__, e))
    elif cfail:
        w = cfail
        out['errors'].append('obligations discharged over the reals but the floating point code fails the contract')
    out['witness'] = w
    for k in smt.STATS:
        out[k] = smt.STATS[k] - z0[k]
    out['slow'] = sorted([(round(ob.secs, 2), ob.label, ob.backend) for ob in obs], reverse=True)[:3]
    out['secs'] = time.process_time() - t0
    out['wall'] = time.time() - w0
    return out


def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())


_TASKS = []


def _worker(i):
    sf, p, tier, seed, budget = _TASKS[i]
    try:
        return run_task(sf, p, tier, seed, budget)
    except BaseException as e:
        return {'name': sf.name + pname(p), 'obligations': 1, 'discharged': 0, 'backends': {}, 'failed': [], 'functions': [],
                'errors': ['worker: %s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-600:])], 'contracts': [],
                'assumptions': [], 'paths': 0, 'secs': 0, 'samples': [], 'cross': 0, 'witness': None, 'bounded': None, 'slow': []}


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        return json.load(open(p))
    return []


BASE_TRUST = [
    'machine floats treated as mathematical reals (decimal literals taken at their written value)',
    'pyvc engine: AST extraction (pyvc/instr.py), symbolic execution, canonical form, interval arithmetic with numpy libm widened by 4e-15',
    'z3 where named as back end', 'mpmath for the sign of closed constants', 'CPython 3.12 semantics of the executed subset']


def main(argv=None):
    if os.environ.get('PYTHONHASHSEED') != '0':
        # one fixed iteration order, and (below) one fresh process per task: verdicts do not depend on scheduling
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'pyvc.run'] + list(sys.argv[1:] if argv is None else argv))
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--spec')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float)
    a = ap.parse_args(argv)
    t0 = time.time()
    prop = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    results = []
    fatal = None
    try:
        instr.install()
        instr.get('')
        instr.real('')
        load(prop)
    except BaseException as e:
        fatal = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc())
    bud = a.budget or (240 if tier == 'quick' else 3000)
    if fatal is None:
        for sf in REGISTRY.get(prop, []):
            if a.spec and a.spec not in sf.name:
                continue
            if sf.opts.get('thorough_only') and tier != 'thorough':
                continue
            for p in (sf.params if sf.params is not None else [None]):
                _TASKS.append((sf, p, tier, seed, sf.opts.get('budget', bud)))
        if _TASKS:
            ctx = mp.get_context('fork')
            n = min(a.j, len(_TASKS))
            if n == 1:
                results = [_worker(i) for i in range(len(_TASKS))]
            else:
                # longest (declared) tasks first
                order = sorted(range(len(_TASKS)), key=lambda i: -_TASKS[i][0].opts.get('weight', 1))
                with ctx.Pool(n, maxtasksperchild=1) as pool:
                    hard = 840 if tier == 'quick' else 7000
                    asy = [(i, pool.apply_async(_worker, (i,))) for i in order]
                    for i, r in asy:
                        left = t0 + hard - time.time()
                        try:
                            results.append(r.get(max(1, left)))
                        except mp.TimeoutError:
                            sf, p = _TASKS[i][:2]
                            results.append({'name': sf.name + pname(p), 'obligations': 1, 'discharged': 0, 'backends': {},
                                            'failed': [], 'functions': [], 'errors': ['check time limit'], 'contracts': [],
                                            'assumptions': [], 'paths': 0, 'secs': 0, 'samples': [], 'cross': 0, 'witness': None,
                                            'bounded': None, 'slow': []})
                    pool.terminate()
        for f in STATIC.get(prop, []):
            if a.spec and a.spec not in f.__name__:
                continue
            t1 = time.time()
            try:
                r = f(tier, seed)
            except BaseException as e:
                r = {'obligations': 1, 'discharged': 0, 'errors': ['static: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])]}
            r.setdefault('name', f.__name__)
            for k, v in (('backends', {}), ('failed', []), ('errors', []), ('functions', []), ('contracts', []), ('assumptions', []),
                         ('paths', 0), ('samples', []), ('cross', 0), ('witness', None), ('bounded', None), ('slow', [])):
                r.setdefault(k, v)
            r['secs'] = time.time() - t1
            results.append(r)
    return report(prop, tier, seed, results, fatal, t0, a)


def report(prop, tier, seed, results, fatal, t0, a):
    nob = sum(r['obligations'] for r in results)
    ndis = sum(r['discharged'] for r in results)
    backends = {}
    for r in results:
        for k, v in r['backends'].items():
            backends[k] = backends.get(k, 0) + v
    bad = [r for r in results if r['failed'] or r['errors'] or r['witness']]
    if a.v:
        for r in sorted(results, key=lambda r: -r['secs']):
            print('%-60s ob %4d dis %4d paths %4d cross %3d %.1fs %s' % (r['name'][:60], r['obligations'], r['discharged'], r['paths'],
                                                                   r['cross'], r['secs'], r['slow'][:1] if r['secs'] > 5 else ''))
            for e in r['errors'][:5]:
                print('    ERROR', e)
            for f in r['failed'][:4]:
                print('    FAILED', f['label'], f['choices'], '|', f['detail'][:250])
                print('        goal', f['goal'][:300])
                print('        pc', str(f['pc'])[:500])
            if r['witness']:
                print('    WITNESS', r['witness'])
    if a.spec and not a.v:
        a.v = True
    violations = []
    if fatal is None and nob == 0:
        fatal = 'no obligations generated'
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    if fatal is not None:
        p = os.path.join(rdir, '%s-load.json' % prop)
        json.dump({'property': prop, 'error': fatal}, open(p, 'w'), indent=1)
        violations.append((p, False, fatal.splitlines()[0]))
    # concrete witnesses first
    for r in sorted(bad, key=lambda r: r['witness'] is None):
        p = os.path.join(rdir, '%s-%s.json' % (prop, ''.join(c if c.isalnum() else '_' for c in r['name'])[:80]))
        d = {'property': prop, 'spec': r['name'], 'failed_obligations': r['failed'][:20], 'engine_errors': r['errors'],
             'witness': r['witness'],
             'replay_cmd': 'cd %s && python3-vt -m pyvc.replay %s' % (VERIF, p)}
        json.dump(d, open(p, 'w'), indent=1, default=str)
        violations.append((p, r['witness'] is not None, r['name']))
    kf = [k for k in known_findings() if k.get('property') == prop and k.get('status') == 'known']
    for k in kf:
        st = recheck_known(k)
        if st:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for r in results:
        for t in r.get('known', []):
            pass
    functions = sorted(set(f for r in results for f in r['functions']))
    contracts = sorted(set(f for r in results for f in r['contracts']))
    assum = sorted(set(x for r in results for x in r['assumptions']))
    bounded = [{'spec': r['name'], 'bound': r['bounded'], 'obligations': r['obligations']} for r in results if r['bounded']]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {
              'obligations': nob, 'discharged': ndis,
              'checker_cmd': 'cd /verif && python3-vt -m pyvc.run %s' % prop,
              'trusted_base': BASE_TRUST + ['assumed contract: ' + c for c in contracts],
              'contracts': len(results),
              'functions_under_contract': functions,
              'functions_count': len(functions),
              'discharged_by_backend': backends,
              'paths_explored': sum(r['paths'] for r in results),
              'extraction_cross_checks': sum(r['cross'] for r in results),
              'solver_seconds': {'z3': round(sum(r.get('z3_time', 0) for r in results), 2),
                                 'all back ends and VC generation (cpu)': round(sum(r['secs'] for r in results), 2)},
              'bounded_standins': bounded,
              'obligations_in_bounded_standins': sum(b['obligations'] for b in bounded),
              'per_contract': [{'contract': r['name'], 'obligations': r['obligations'], 'discharged': r['discharged'],
                                'paths': r['paths'], 'secs': round(r['secs'], 2)} for r in results],
              'samples': [s for r in results for s in r['samples']][:12],
          },
          'assumptions': assum + ['machine arithmetic treated as mathematical reals; NaN/inf arguments outside the preconditions',
                                  'callee contracts assumed at call sites: ' + (', '.join(contracts) or 'none')],
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    if not a.spec:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    for p, found, nm in violations:
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if found else ' no-failing-input-found'))
        if found:
            pass
    print('%s: %d obligations, %d discharged, %d contracts, %d functions, %.1fs' % (prop, nob, ndis, len(results), len(functions), time.time() - t0))
    if violations:
        return 1
    return 0


def recheck_known(k):
    """evaluate the recorded failing input on the real package"""
    import subprocess
    repo = os.environ.get('VERIF_REPO', '/repo')
    r = subprocess.run([sys.executable, '-c', k['demo'] + '\nimport sys\nsys.exit(0 if fails() else 3)\n'], cwd=repo,
                       env=dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1'), capture_output=True)
    return r.returncode == 0


if __name__ == '__main__':
    # one module instance: specs import pyvc.run
    import pyvc.run as _me
    _me.REGISTRY is REGISTRY or None
    sys.exit(_me.main())
