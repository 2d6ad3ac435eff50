"""setup / self test of the verification-condition generator (quick):
 1. deliberately broken bodies must fail, correct ones must be discharged;
 2. the extracted (symbolic) functions evaluated at closed arguments agree with
    CPython running the unmodified package."""
import os
import sys
import tempfile
import random
import warnings
import math

warnings.simplefilter('ignore')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

from pyvc import ir, instr, engine, prove, ival  # noqa
import pyvc.run  # noqa

TOY = '''
from math import sqrt, exp, log
def area(d): return 3.0*d*d/4.0
def area_bad(d): return 3.0*d*d/4.1
def inv(A): return sqrt(4.0*A/3.0)
def clampv(x):
    if x < 0.0: return 0.0
    if x > 1.0: return 1.0
    return x
def clamp_bad(x):
    if x < 0.0: return 0.0
    if x > 1.25: return 1.0
    return x
def safe(x): return 1.0/(1.0 + x*x)
def unsafe(x): return 1.0/(1.0 - x)
def wexp(x): return exp(log(x)*2.0)
def loop(n, x):
    s = 0.0
    for i in range(n): s += x**i
    return s
def guarded(x):
    try: return 1.0/x
    except: return 7.0
'''


def toy():
    d = tempfile.mkdtemp()
    p = os.path.join(d, 'toy.py')
    open(p, 'w').write(TOY)
    ld = instr.Loader(p, instr.SPKG + '.toy', False)
    import types
    m = types.ModuleType(instr.SPKG + '.toy')
    ld.exec_module(m)
    os.remove(p)
    os.rmdir(d)
    return m


def verdict(spec):
    e = engine.Engine(max_paths=200)
    e.run(spec)
    obs = list(e.obls.values())
    if e.errors or not obs or not e.completed:
        return 'error'
    return 'ok' if all(prove.prove(o, 5, 50000).ok for o in obs) else 'failed'


def main():
    instr.install()
    m = toy()
    bad = []

    def want(name, v, spec):
        r = verdict(spec)
        if r != v:
            bad.append('%s: %s, expected %s' % (name, r, v))
    want('inverse', 'ok', lambda S: S.eq(S.call(m.inv, S.call(m.area, S.real('d', 1e-3, 1e3))), S.lift(ir.sym('d'))))
    want('inverse broken', 'failed', lambda S: S.eq(S.call(m.inv, S.call(m.area_bad, S.real('d', 1e-3, 1e3))), S.lift(ir.sym('d'))))
    want('range', 'ok', lambda S: S.between(0, S.call(m.clampv, S.real('x', -10, 10)), 1))
    want('range broken', 'failed', lambda S: S.between(0, S.call(m.clamp_bad, S.real('x', -10, 10)), 1))
    want('defined', 'ok', lambda S: S.gt(S.call(m.safe, S.real('x', -10, 10)), 0))
    want('undefined', 'failed', lambda S: S.call(m.unsafe, S.real('x', -10, 10)))
    want('exp/log', 'ok', lambda S: (lambda x: S.eq(S.call(m.wexp, x), x * x))(S.real('x', .1, 10)))
    want('exp/log wrong', 'failed', lambda S: (lambda x: S.eq(S.call(m.wexp, x), x * x * x))(S.real('x', .1, 10)))
    want('loop', 'ok', lambda S: (lambda x: S.eq(S.call(m.loop, 5, x) * (1 - x), 1 - x**5))(S.real('x', 2, 10)))
    want('loop wrong', 'failed', lambda S: (lambda x: S.eq(S.call(m.loop, 5, x) * (1 - x), 1 - x**4))(S.real('x', 2, 10)))
    want('handler', 'ok', lambda S: (lambda x: S.check((S.call(m.guarded, x) * x == 1) | (x == 0)))(S.real('x', -1, 1)))

    def vacuous(S):
        x = S.real('x', 1, 2)
        S.assume(x > 3)
        S.eq(x, x + 1)
    want('vacuous precondition', 'error', vacuous)

    # cross-check against CPython
    rng = random.Random(1)
    cases = [('core.Reynolds', dict(D=(.1, 2), V=(.1, 9), rho=(1, 1e3), mu=(1e-5, 1e-2))),
             ('friction.Colebrook', None), ('friction.friction_factor', dict(Re=(10, 1e7), eD=(1e-6, .05))),
             ('compressible.Panhandle_A', dict(SG=(.5, 1), Tavg=(250, 350), L=(1e3, 1e5), D=(.1, 1), P1=(6e6, 9e6), P2=(1e6, 5e6))),
             ('fittings.contraction_sharp', dict(Di1=(1, 2), Di2=(.3, .9))),
             ('geometry.V_from_h', None), ('drag.Barati_high', dict(Re=(1, 1e5))), ('packed_bed.KTA', dict(
                 dp=(1e-3, 1e-2), voidage=(.3, .5), vs=(.01, 1), rho=(1, 1e3), mu=(1e-5, 1e-2), L=(.1, 2))),
             ('two_phase_voidage.Rouhani_1', dict(x=(.1, .9), rhol=(500, 1000), rhog=(1, 50), sigma=(.01, .1), m=(.1, 10), D=(.01, .5)))]
    for q, ranges in cases:
        if ranges is None:
            continue
        mod, f = q.split('.')
        fr, fs = getattr(instr.real(mod), f), getattr(instr.get(mod), f)
        for _ in range(10):
            v = {k: rng.uniform(*r) for k, r in ranges.items()}
            a = fr(**v)
            from fractions import Fraction
            e = engine.Engine()
            res = {}

            def sp(S):
                res['t'] = S.lift(fs(**{k: ir.num(Fraction(x)) for k, x in v.items()}))
            e.run(sp)
            b = ival.evalmp([res['t']], {}, 40)[0] if 't' in res else None
            if b is None or abs(float(b) - a) > 1e-9 * abs(a):
                bad.append('cross-check %s %r: CPython %r, extracted %r %s' % (q, v, a, b, e.errors))
                break
    for b in bad:
        print('SELFTEST FAILED', b)
    print('selftest: %s' % ('FAILED' if bad else 'ok'))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
