"""Contracts of numerical kernels, assumed at their call sites (each is listed in
the evidence as an assumed contract; property P14 discharges those of the root
finders against their real bodies).

A root finder `find(f, ..., args)` that returns normally returns r with
f(r, *args) == 0 (exactly: convergence tolerances are idealised)."""
import inspect
from . import ir
from .ir import R, num, coerce, Unsupported

ROOTS_GUESS = ('fluids.numerics.secant', 'fluids.numerics.newton', 'fluids.numerics.halley')
ROOTS_BRACKET = ('fluids.numerics.brenth', 'fluids.numerics.bisect', 'fluids.numerics.ridder', 'fluids.numerics.brentq')


def _bind(f, a, k):
    b = inspect.signature(f).bind(*a, **k)
    b.apply_defaults()
    return b.arguments


def symbolic_args(xs):
    for x in xs:
        if isinstance(x, R) and not ir.is_closed(x):
            return True
        if isinstance(x, (list, tuple)) and symbolic_args(x):
            return True
    return False


def _closure_symbolic(f, depth=0):
    f = getattr(f, '__wrapped__', f)
    if depth > 4:
        return True
    cl = getattr(f, '__closure__', None) or ()
    for c in cl:
        try:
            v = c.cell_contents
        except ValueError:
            continue
        if isinstance(v, R) and not ir.is_closed(v):
            return True
        if isinstance(v, (list, tuple, dict)):
            vs = v.values() if isinstance(v, dict) else v
            if symbolic_args(list(vs)):
                return True
        if callable(v) and _closure_symbolic(v, depth + 1):
            return True
    d = getattr(f, '__defaults__', None) or ()
    if symbolic_args(d):
        return True
    s = getattr(f, '__self__', None)
    if s is not None:
        return True
    g = getattr(f, 'args', None)     # functools.partial
    if g and symbolic_args(g):
        return True
    return False


def root(qual, orig, *a, **k):
    E = ir.ENGINE
    p = _bind(orig, a, k)
    if E.try_depth > 0 and E.choose(2):
        # the solver may give up; the caller handles that
        from . import instr
        raise instr.get('numerics').UnconvergedError('root finder contract: no convergence')
    f = p.get('func', p.get('f'))
    args = p.get('args', ()) or ()
    kw = p.get('kwargs', None) or {}
    r = E.fresh('root')
    lo = hi = None
    if qual in ROOTS_BRACKET:
        keys = [n for n in p if n in ('xa', 'xb', 'a', 'b')]
        lo, hi = p[keys[0]], p[keys[1]]
    else:
        lo, hi = p.get('low'), p.get('high')
    # result lies inside a supplied bracket
    if qual in ROOTS_BRACKET:
        l, h = coerce(lo), coerce(hi)
        d = E.or_.decide(ir.cmp_('le', l, h))
        if d is False:
            l, h = h, l
        elif d is None:
            if not E.decide(ir.cmp_('le', l, h)):
                l, h = h, l
        lr, hr = E.or_.rng(l), E.or_.rng(h)
        E.or_.setbox(r.val, lr[0], hr[1])
        E.assume(ir.cmp_('le', l, r))
        E.assume(ir.cmp_('le', r, h))
    else:
        L = -float('inf')
        H = float('inf')
        if lo is not None and coerce(lo) is not None:
            L = E.or_.rng(coerce(lo))[0]
        if hi is not None and coerce(hi) is not None:
            H = E.or_.rng(coerce(hi))[1]
        E.or_.setbox(r.val, L, H)
        if lo is not None and coerce(lo) is not None:
            E.assume(ir.cmp_('le', coerce(lo), r))
        if hi is not None and coerce(hi) is not None:
            E.assume(ir.cmp_('le', r, coerce(hi)))
        dom = getattr(E, 'root_domain', None)
        if dom is not None:
            E.or_.setbox(r.val, max(L, dom[0]), min(H, dom[1]))
    E.contracts_used.add(qual + ': returns r with func(r,*args) == 0' + (' inside the bracket' if qual in ROOTS_BRACKET else ''))
    old = E.check_defined
    E.check_defined = False
    try:
        v = f(r, *args, **kw)
    except Unsupported:
        raise
    except Exception:
        # f(r) == 0 presupposes that f(r) evaluates normally
        from .engine import PathEnd
        raise PathEnd()
    finally:
        E.check_defined = old
    if isinstance(v, tuple):
        v = v[0]
    E.assume(ir.cmp_('eq', coerce(v), ir.ZERO))
    return r


def lamb(orig, *a, **k):
    """Lambert W (scipy): w*exp(w) == z on the requested real branch"""
    E = ir.ENGINE
    z = coerce(a[0] if a else k['z'])
    br = a[1] if len(a) > 1 else k.get('k', 0)
    br = int(br) if not isinstance(br, int) else br
    from scipy.special import lambertw as W
    import math
    E.contracts_used.add('fluids.numerics.lambertw (scipy): w*exp(w) == z, w >= -1 on branch 0, w <= -1 on branch -1')
    mk = (br, E.or_.key(z) or z.id)
    memo = E.__dict__.setdefault('lambmemo', {})
    if mk in memo:
        return memo[mk]
    w = memo[mk] = E.fresh('lambert')
    zl, zh = E.or_.rng(z)
    if br == 0:
        lo = float(W(zl).real) if zl > -0.36 else -1.0
        hi = float(W(zh).real) if math.isfinite(zh) else math.inf
        lo = max(-1.0, lo - abs(lo) * 1e-9 - 1e-300)
        hi = hi + abs(hi) * 1e-9
        if zl > 0:
            lo = max(lo, 5e-324)
        elif zl == 0:
            lo = max(lo, 0.0)
        E.or_.setbox(w.val, lo, hi)
        E.assume(ir.cmp_('le', num(-1), w))
    elif br == -1:
        # real only for -1/e <= z < 0
        E.or_.setbox(w.val, -math.inf, -1.0)
        E.assume(ir.cmp_('le', w, num(-1)))
    else:
        raise Unsupported('lambertw branch')
    E.assume(ir.cmp_('eq', w * ir.fn('exp', w), z))
    # the same equation in logarithms
    if br == -1:
        E.assume(ir.cmp_('eq', w + ir.fn('log', ir.neg(w)), ir.fn('log', ir.neg(z))))
    elif E.or_.rng(z)[0] > 0:
        E.assume(ir.cmp_('eq', w + ir.fn('log', w), ir.fn('log', z)))
    return w


def system(orig, *a, **k):
    """newton_system(f, x0, ...) that returns normally returns x with f(x) == 0 componentwise"""
    E = ir.ENGINE
    p = _bind(orig, a, k)
    f, args = p['f'], p.get('args', ()) or ()
    x = [E.fresh('root') for _ in p['x0']]
    dom = getattr(E, 'system_domain', None)
    for r, d in zip(x, dom or [(-float('inf'), float('inf'))] * len(x)):
        E.or_.setbox(r.val, *d)
    E.contracts_used.add('fluids.numerics.newton_system: returns x with f(x,*args) == 0')
    old = E.check_defined
    E.check_defined = False
    try:
        v = f(x, *args)
    except Unsupported:
        raise
    except Exception:
        from .engine import PathEnd
        raise PathEnd()
    finally:
        E.check_defined = old
    if p['jac'] is True:
        v = v[0]
    for y in v:
        E.assume(ir.cmp_('eq', coerce(y), ir.ZERO))
    return x, 1


def install(E):
    E.overrides['fluids.numerics.newton_system'] = system
    E.lambmemo = {}
    E.overrides['fluids.numerics.lambertw'] = lamb
    for q in ROOTS_GUESS + ROOTS_BRACKET:
        E.overrides[q] = (lambda q: lambda orig, *a, **k: root(q, orig, *a, **k))(q)
