"""build and validate planted bugs from tools/seedlist.py (development aid; no check uses it)
python3 tools/mkseed.py [id ...] [--notest] [--nocheck]"""
import json, os, subprocess, sys, shutil, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SEEDS = []


def seed(id, prop, file, old, new, demo, needs, breaks, more=()):
    SEEDS.append(dict(id=id, prop=prop, edits=[(file, old, new)] + list(more), demo=demo, needs=needs, breaks=breaks))


exec(open(os.path.join(HERE, 'tools', 'seedlist.py')).read())


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def build(s, notest, nocheck):
    d = os.path.join(HERE, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    W = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    R = W + '/repo'
    out = [s['id']]
    try:
        sh(['cp', '-a', '/repo', R])
        for f, old, new in s['edits']:
            p = R + '/' + f
            t = open(p).read()
            if t.count(old) != 1:
                return s['id'] + ': OLD TEXT COUNT %d in %s' % (t.count(old), f)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', cwd=R).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(s['demo'].strip() + '\n')
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd at the package root\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                                        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        env = dict(os.environ)
        a = sh(['bash', d + '/demo.sh'], cwd='/repo')
        b = sh(['bash', d + '/demo.sh'], cwd=R)
        out.append('demo clean=%d bug=%d' % (a.returncode, b.returncode))
        if a.returncode or not b.returncode:
            out.append('BAD DEMO ' + (a.stderr + b.stderr)[-300:])
        if not notest:
            env.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', NUMBA_FUNCTION_CACHE_SIZE='0', PYTHONPATH=R, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', HOME=W, LANG='C.UTF-8', TZ='UTC', PYTHONHASHSEED='0', PYTHONPYCACHEPREFIX=W + '/pyc')
            r = sh([PY, '-m', 'pytest', '.', '-q', '-n', '4', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors',
                    '-m', 'not online and not thermo', '-o', 'junit_family=xunit2', '--junitxml', W + '/j.xml', '--basetemp', W + '/pt'], cwd=R, env=env)
            sh(['python3', '/opt/vp/results.py', W + '/o.json', 'junit:' + W + '/j.xml'])
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            o = json.load(open(W + '/o.json'))
            miss = sorted(base - set(o['passed']))
            out.append('tests ok' if not miss else 'TESTS FAIL %d: %s' % (len(miss), miss[:4]))
        if not nocheck:
            e = dict(os.environ, VERIF_REPO=R)
            r = sh(['python3-vt', '-m', 'pyvc.run', s['prop'], '-j', '4'], cwd=HERE, env=e)
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            out.append(('CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode) + ' ' + (v[0].replace('/verif/evidence/replay/', '')[:110] if v else ''))
        return ' | '.join(out)
    finally:
        shutil.rmtree(W)


if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    todo = [s for s in SEEDS if not a or s['id'] in a or s['prop'] in a]
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda s: build(s, '--notest' in sys.argv, '--nocheck' in sys.argv), todo):
            print(r, flush=True)
