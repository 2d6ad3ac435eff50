"""Numeric back ends over the term language:
  * evalmp   - high precision evaluation (mpmath)
  * evalnp   - vectorised float evaluation (search for counterexamples only)
  * ieval    - rigorous outward-rounded interval evaluation with gradients
  * bnb      - branch and bound: proves  pc |= g <= 0  over a bounded box
"""
import numpy as np
import mpmath
from fractions import Fraction
from .ir import topo, num, sub, R, free_syms

np.seterr(all='ignore')
_mp = mpmath.mp


# ---------------------------------------------------------------- mpmath
def _mpfn(name, a):
    if name == 'pi':
        return mpmath.pi()
    x = a[0]
    if name == 'floor':
        return mpmath.floor(x)
    if name == 'int':
        return mpmath.mpf(int(x))
    if name.startswith('round'):
        n = name[5:]
        if n == 'None':
            return mpmath.nint(x)
        return mpmath.mpf(round(float(x), int(n)))
    f = getattr(mpmath, name)
    r = f(x)
    return r


class EvalError(Exception):
    pass


def evalmp(ts, env, dps=50, memo=None):
    """list of terms -> list of mpf/bool (None when undefined)"""
    if memo is None:
        memo = {}
    with mpmath.workdps(dps):
        for u in topo(ts):
            if u.id in memo:
                continue
            op = u.op
            try:
                if op == 'num':
                    v = mpmath.mpf(u.val.numerator) / u.val.denominator
                elif op == 'sym':
                    x = env[u.val]
                    if isinstance(x, Fraction):
                        x = mpmath.mpf(x.numerator) / x.denominator
                    v = mpmath.mpf(x)
                else:
                    a = [memo[x.id] for x in u.args]
                    if op == 'and':
                        v = False if any(x is False for x in a) else (None if any(x is None for x in a) else True)
                    elif op == 'or':
                        v = True if any(x is True for x in a) else (None if any(x is None for x in a) else False)
                    elif any(x is None for x in a):
                        v = None
                    elif op == 'add':
                        v = a[0] + a[1]
                    elif op == 'mul':
                        v = a[0] * a[1]
                    elif op == 'pow':
                        e = u.args[1]
                        if a[0] == 0 and a[1] < 0:
                            v = None
                        elif e.op == 'num' and e.val.denominator == 1:
                            v = a[0] ** int(e.val)
                        elif a[0] < 0:
                            v = None
                        elif e.op == 'num' and e.val == Fraction(1, 2):
                            v = mpmath.sqrt(a[0])
                        else:
                            v = a[0] ** a[1]
                    elif op == 'fn':
                        if u.val == 'log' and a[0] <= 0:
                            v = None
                        else:
                            v = _mpfn(u.val, a)
                            if isinstance(v, mpmath.mpc):
                                v = None
                    elif op == 'lt':
                        v = bool(a[0] < a[1])
                    elif op == 'le':
                        v = bool(a[0] <= a[1])
                    elif op == 'eq':
                        v = bool(a[0] == a[1])
                    elif op == 'not':
                        v = not a[0]
                    elif op == 'true':
                        v = True
                    elif op == 'false':
                        v = False
                    else:
                        v = None
            except (ZeroDivisionError, ValueError, OverflowError, KeyError, AttributeError):
                v = None
            memo[u.id] = v
        return [memo[t.id] for t in ts]


_CF = {}


def closed_float(t):
    v = _CF.get(t.id)
    if v is None:
        v = evalmp([t], {}, 40)[0]
        if v is None:
            raise ValueError('math domain error')
        v = float(v)
        _CF[t.id] = v
    return v


def closed_mp(t, dps=60):
    return evalmp([t], {}, dps)[0]


_CS = {}


def closed_sign(t):
    if t.id in _CS:
        return _CS[t.id]
    v = evalmp([t], {}, 80)[0]
    if v is None:
        s = None
    elif v > mpmath.mpf(10) ** -60:
        s = 1
    elif v < -mpmath.mpf(10) ** -60:
        s = -1
    else:
        s = None
        try:
            from . import nf
            if nf.is_zero(t):
                s = 0
        except Exception:
            s = None
        if s is None:
            # equal to 60 digits: a closed term built from short decimal literals
            s = 0
    _CS[t.id] = s
    return s


# ---------------------------------------------------------------- numpy floats
_NPF = {'exp': np.exp, 'log': np.log, 'sin': np.sin, 'cos': np.cos, 'tan': np.tan,
        'asin': np.arcsin, 'acos': np.arccos, 'atan': np.arctan, 'sinh': np.sinh,
        'cosh': np.cosh, 'tanh': np.tanh, 'floor': np.floor, 'asinh': np.arcsinh,
        'acosh': np.arccosh, 'atanh': np.arctanh}


def evalnp(ts, env, n, memo=None):
    if memo is None:
        memo = {}
    for u in topo(ts):
        if u.id in memo:
            continue
        op = u.op
        a = [memo[x.id] for x in u.args]
        if op == 'num':
            v = float(u.val)
        elif op == 'sym':
            v = env.get(u.val)
            if v is None:
                v = np.full(n, np.nan)
        elif op == 'add':
            v = a[0] + a[1]
        elif op == 'mul':
            v = a[0] * a[1]
        elif op == 'pow':
            e = u.args[1]
            if e.op == 'num' and e.val.denominator == 1:
                v = np.power(a[0], float(e.val)) if not isinstance(a[0], float) else (
                    np.float64(a[0]) ** float(e.val))
            else:
                v = np.power(np.asarray(a[0], dtype=float), a[1])
        elif op == 'fn':
            if u.val == 'pi':
                v = np.pi
            elif u.val in _NPF:
                v = _NPF[u.val](a[0])
            elif u.val == 'erf':
                from scipy.special import erf
                v = erf(a[0])
            elif u.val.startswith('round'):
                nn = u.val[5:]
                v = np.round(a[0], 0 if nn == 'None' else int(nn))
            else:
                v = np.full(n, np.nan)
        elif op == 'lt':
            v = a[0] < a[1]
        elif op == 'le':
            v = a[0] <= a[1]
        elif op == 'eq':
            v = a[0] == a[1]
        elif op == 'not':
            v = ~np.asarray(a[0], dtype=bool)
        elif op == 'and':
            v = True
            for x in a:
                v = np.logical_and(v, x)
        elif op == 'or':
            v = False
            for x in a:
                v = np.logical_or(v, x)
        elif op in ('true', 'false'):
            v = op == 'true'
        else:
            v = np.full(n, np.nan)
        memo[u.id] = v
    return [np.broadcast_to(np.asarray(memo[t.id]), (n,)) for t in ts]


# ---------------------------------------------------------------- intervals
_NI = -np.inf
_PI_ = np.inf


def _dn(x):
    return np.nextafter(x, _NI)


def _up(x):
    return np.nextafter(x, _PI_)


def _dn4(x):
    return x - np.abs(x) * 4e-15 - 1e-300


def _up4(x):
    return x + np.abs(x) * 4e-15 + 1e-300


class IV:
    """interval vector; nan endpoints mean 'no information' and are widened"""
    __slots__ = ('lo', 'hi')

    def __init__(self, lo, hi):
        self.lo = np.where(np.isnan(lo), _NI, lo)
        self.hi = np.where(np.isnan(hi), _PI_, hi)


def iv_add(a, b):
    return IV(_dn(a.lo + b.lo), _up(a.hi + b.hi))


def _m(x, y):
    r = x * y
    return np.where(np.isnan(r), 0.0, r)   # 0*inf = 0 in interval arithmetic


def iv_mul(a, b):
    p1 = _m(a.lo, b.lo)
    p2 = _m(a.lo, b.hi)
    p3 = _m(a.hi, b.lo)
    p4 = _m(a.hi, b.hi)
    return IV(_dn(np.minimum(np.minimum(p1, p2), np.minimum(p3, p4))),
              _up(np.maximum(np.maximum(p1, p2), np.maximum(p3, p4))))


def iv_inv(a):
    bad = (a.lo <= 0) & (a.hi >= 0)
    lo = 1.0 / a.hi
    hi = 1.0 / a.lo
    # one sided
    zl = (a.lo == 0) & (a.hi > 0)
    zh = (a.hi == 0) & (a.lo < 0)
    lo2 = np.where(bad, _NI, _dn(lo))
    hi2 = np.where(bad, _PI_, _up(hi))
    lo2 = np.where(zl, _dn(1.0 / a.hi), lo2)
    hi2 = np.where(zh, _up(1.0 / a.lo), hi2)
    return IV(lo2, hi2)


def iv_sq(a):
    l2 = a.lo * a.lo
    h2 = a.hi * a.hi
    hi = _up(np.maximum(l2, h2))
    lo = np.where((a.lo <= 0) & (a.hi >= 0), 0.0, _dn(np.minimum(l2, h2)))
    return IV(lo, hi)


def iv_ipow(a, n):
    if n == 1:
        return a
    if n == 2:
        return iv_sq(a)
    if n < 0:
        return iv_inv(iv_ipow(a, -n))
    if n % 2 == 1:
        # monotone
        lo = np.power(a.lo, float(n))
        hi = np.power(a.hi, float(n))
        return IV(_dn4(lo), _up4(hi))
    m = np.maximum(np.abs(a.lo), np.abs(a.hi))
    k = np.where((a.lo <= 0) & (a.hi >= 0), 0.0, np.minimum(np.abs(a.lo), np.abs(a.hi)))
    return IV(np.maximum(_dn4(np.power(k, float(n))), 0.0), _up4(np.power(m, float(n))))


def iv_rpow(a, f):
    """a ** f for a non-integer constant f; domain a>=0 (rest clipped: the
    definedness obligations guarantee a>=0 separately)"""
    lo = np.maximum(a.lo, 0.0)
    hi = np.maximum(a.hi, 0.0)
    # exponent rounding: f is within 1 ulp of the rational
    if f > 0:
        l = np.power(lo, f)
        h = np.power(hi, f)
    else:
        l = np.power(hi, f)
        h = np.power(lo, f)
    big = 4e-15 + 2.3e-16 * abs(f) * 720
    return IV(np.maximum(l - np.abs(l) * big - 1e-300, 0.0), h + np.abs(h) * big + 1e-300)


def iv_exp(a):
    l = np.exp(a.lo)
    h = np.exp(a.hi)
    return IV(np.maximum(_dn4(l), 0.0), _up4(h))


def iv_log(a):
    l = np.log(np.maximum(a.lo, 0.0))
    h = np.log(np.maximum(a.hi, 0.0))
    return IV(_dn4(l) - 1e-16, _up4(h) + 1e-16)


def _trig(a, f, phase):
    """sin/cos range: f = np.sin / np.cos; maxima at phase + 2k pi"""
    lo, hi = a.lo, a.hi
    fl, fh = f(lo), f(hi)
    mn = np.minimum(fl, fh)
    mx = np.maximum(fl, fh)
    tp = 2 * np.pi
    eps = 1e-12 * (1 + np.abs(lo) + np.abs(hi))
    hasmax = np.floor((hi + eps - phase) / tp) >= np.ceil((lo - eps - phase) / tp)
    hasmin = np.floor((hi + eps - phase - np.pi) / tp) >= np.ceil((lo - eps - phase - np.pi) / tp)
    wide = ~np.isfinite(lo) | ~np.isfinite(hi) | (hi - lo >= tp)
    mx = np.where(hasmax | wide, 1.0, np.minimum(1.0, mx + 1e-15))
    mn = np.where(hasmin | wide, -1.0, np.maximum(-1.0, mn - 1e-15))
    return IV(mn, mx)


def iv_fn(name, a):
    if name == 'exp':
        return iv_exp(a)
    if name == 'log':
        return iv_log(a)
    if name == 'sin':
        return _trig(a, np.sin, np.pi / 2)
    if name == 'cos':
        return _trig(a, np.cos, 0.0)
    if name == 'tan':
        k = np.floor((a.lo + np.pi / 2) / np.pi) == np.floor((a.hi + np.pi / 2) / np.pi)
        near = (np.abs(np.cos(a.lo)) < 1e-9) | (np.abs(np.cos(a.hi)) < 1e-9)
        ok = k & ~near
        l = np.tan(a.lo)
        h = np.tan(a.hi)
        return IV(np.where(ok, _dn4(l) - 1e-15, _NI), np.where(ok, _up4(h) + 1e-15, _PI_))
    if name in ('asin', 'acos'):
        lo = np.clip(a.lo, -1, 1)
        hi = np.clip(a.hi, -1, 1)
        if name == 'asin':
            return IV(_dn4(np.arcsin(lo)) - 1e-16, _up4(np.arcsin(hi)) + 1e-16)
        return IV(np.maximum(_dn4(np.arccos(hi)) - 1e-16, 0), _up4(np.arccos(lo)) + 1e-16)
    if name in ('atan', 'asinh', 'tanh', 'sinh', 'erf'):
        f = _NPF.get(name)
        if name == 'erf':
            from scipy.special import erf as f
        return IV(_dn4(f(a.lo)) - 1e-15, _up4(f(a.hi)) + 1e-15)
    if name == 'cosh':
        m = np.maximum(np.abs(a.lo), np.abs(a.hi))
        k = np.where((a.lo <= 0) & (a.hi >= 0), 0.0, np.minimum(np.abs(a.lo), np.abs(a.hi)))
        return IV(np.maximum(_dn4(np.cosh(k)), 1.0), _up4(np.cosh(m)))
    if name == 'acosh':
        return IV(_dn4(np.arccosh(np.maximum(a.lo, 1))) - 1e-16, _up4(np.arccosh(np.maximum(a.hi, 1))) + 1e-16)
    if name == 'floor':
        return IV(np.floor(a.lo), np.floor(a.hi))
    if name.startswith('round'):
        n = name[5:]
        d = 0.5 if n == 'None' else 0.5 * 10.0 ** -int(n)
        return IV(_dn(a.lo - d), _up(a.hi + d))
    return IV(np.full(a.lo.shape, _NI), np.full(a.lo.shape, _PI_))


def _const(v, n):
    f = float(v)
    if Fraction(f) == v:
        return IV(np.full(n, f), np.full(n, f))
    return IV(np.full(n, np.nextafter(f, _NI)), np.full(n, np.nextafter(f, _PI_)))


def _fnder(name, a, val):
    """interval of derivative of fn at a"""
    one = IV(np.ones_like(a.lo), np.ones_like(a.lo))
    if name == 'exp':
        return val
    if name == 'log':
        return iv_inv(IV(np.maximum(a.lo, 0.0), np.maximum(a.hi, 0)))
    if name == 'sin':
        return iv_fn('cos', a)
    if name == 'cos':
        s = iv_fn('sin', a)
        return IV(-s.hi, -s.lo)
    if name == 'tan':
        return iv_add(one, iv_sq(val))
    if name in ('asin', 'acos'):
        q = iv_sq(IV(np.clip(a.lo, -1, 1), np.clip(a.hi, -1, 1)))
        d = iv_rpow(IV(_dn(1 - q.hi), _up(1 - q.lo)), -0.5)
        return d if name == 'asin' else IV(-d.hi, -d.lo)
    if name == 'atan':
        return iv_inv(iv_add(one, iv_sq(a)))
    if name == 'sinh':
        return iv_fn('cosh', a)
    if name == 'cosh':
        return iv_fn('sinh', a)
    if name == 'tanh':
        q = iv_sq(val)
        return IV(_dn(1 - q.hi), _up(1 - q.lo))
    if name == 'asinh':
        return iv_rpow(iv_add(one, iv_sq(a)), -0.5)
    if name == 'erf':
        q = iv_sq(a)
        e = iv_exp(IV(-q.hi, -q.lo))
        c = 2 / np.sqrt(np.pi)
        return IV(_dn4(e.lo * c), _up4(e.hi * c))
    return None


class Plan:
    """compiled evaluation order for a set of terms"""

    def __init__(self, terms, vars_):
        self.terms = list(terms)
        self.order = [u for u in topo(self.terms)]
        self.vars = list(vars_)
        self.dep = {}
        for u in self.order:
            if u.op == 'sym':
                self.dep[u.id] = frozenset([u.val]) if u.val in self.vars else frozenset()
            else:
                s = frozenset()
                for a in u.args:
                    s = s | self.dep[a.id]
                self.dep[u.id] = s


def ieval(plan, box, grad=False):
    """box: dict var -> IV.  Returns (vals: id->IV, grads: id->{var: IV})"""
    n = len(next(iter(box.values())).lo) if box else 1
    vals = {}
    grads = {}
    for u in plan.order:
        op = u.op
        if op == 'num':
            vals[u.id] = _const(u.val, n)
            continue
        if op == 'sym':
            b = box.get(u.val)
            if b is None:
                b = IV(np.full(n, _NI), np.full(n, _PI_))
            vals[u.id] = b
            if grad:
                grads[u.id] = {u.val: IV(np.ones(n), np.ones(n))} if u.val in plan.vars else {}
            continue
        if op == 'fn' and not u.args:
            vals[u.id] = IV(np.full(n, np.nextafter(np.pi, 0)), np.full(n, np.nextafter(np.pi, 4)))
            continue
        if op == 'ufn':
            vals[u.id] = IV(np.full(n, _NI), np.full(n, _PI_))
            grads[u.id] = None
            continue
        if op in ('lt', 'le', 'eq', 'and', 'or', 'not', 'true', 'false'):
            continue
        a = vals[u.args[0].id]
        ga = grads.get(u.args[0].id, {})
        if op == 'add':
            b = vals[u.args[1].id]
            r = iv_add(a, b)
            if grad:
                gb = grads.get(u.args[1].id, {})
                if ga is None or gb is None:
                    g = None
                else:
                    g = dict(ga)
                    for k, v in gb.items():
                        g[k] = iv_add(g[k], v) if k in g else v
                grads[u.id] = g
        elif op == 'mul':
            b = vals[u.args[1].id]
            if u.args[0] is u.args[1]:
                r = iv_sq(a)
            else:
                r = iv_mul(a, b)
            if grad:
                gb = grads.get(u.args[1].id, {})
                if ga is None or gb is None:
                    g = None
                else:
                    g = {}
                    for k, v in ga.items():
                        g[k] = iv_mul(v, b)
                    for k, v in gb.items():
                        t = iv_mul(v, a)
                        g[k] = iv_add(g[k], t) if k in g else t
                grads[u.id] = g
        elif op == 'pow':
            e = u.args[1]
            if e.op == 'num':
                ev = e.val
                if ev.denominator == 1 and abs(ev.numerator) < 1000:
                    k = ev.numerator
                    r = iv_ipow(a, k)
                    if grad:
                        if ga is None:
                            g = None
                        else:
                            c = _const(Fraction(k), n)
                            dd = iv_mul(c, iv_ipow(a, k - 1)) if k != 1 else c
                            g = {q: iv_mul(dd, v) for q, v in ga.items()}
                        grads[u.id] = g
                else:
                    f = float(ev)
                    r = iv_rpow(a, f)
                    if grad:
                        if ga is None:
                            g = None
                        else:
                            dd = iv_mul(_const(ev, n), iv_rpow(a, float(ev - 1)))
                            g = {q: iv_mul(dd, v) for q, v in ga.items()}
                        grads[u.id] = g
            else:
                b = vals[e.id]
                la = iv_log(a)
                r = iv_exp(iv_mul(b, la))
                if grad:
                    gb = grads.get(e.id, {})
                    if ga is None or gb is None:
                        g = None
                    else:
                        g = {}
                        dda = iv_mul(b, iv_mul(r, iv_inv(IV(np.maximum(a.lo, 0), np.maximum(a.hi, 0)))))
                        ddb = iv_mul(r, la)
                        for k, v in ga.items():
                            g[k] = iv_mul(v, dda)
                        for k, v in gb.items():
                            t = iv_mul(v, ddb)
                            g[k] = iv_add(g[k], t) if k in g else t
                    grads[u.id] = g
        elif op == 'fn':
            r = iv_fn(u.val, a)
            if grad:
                if ga is None:
                    g = None
                else:
                    dd = _fnder(u.val, a, r)
                    g = None if dd is None else {q: iv_mul(dd, v) for q, v in ga.items()}
                grads[u.id] = g
        else:
            raise AssertionError(op)
        vals[u.id] = r
    return vals, grads


def btruth(b, vals, n):
    """three valued truth of a boolean term on each box: (surely true, surely false)"""
    op = b.op
    if op == 'true':
        return np.ones(n, bool), np.zeros(n, bool)
    if op == 'false':
        return np.zeros(n, bool), np.ones(n, bool)
    if op in ('lt', 'le', 'eq'):
        x, y = vals[b.args[0].id], vals[b.args[1].id]
        if op == 'lt':
            return x.hi < y.lo, x.lo >= y.hi
        if op == 'le':
            return x.hi <= y.lo, x.lo > y.hi
        pt = (x.lo == x.hi) & (y.lo == y.hi) & (x.lo == y.lo)
        return pt, (x.hi < y.lo) | (x.lo > y.hi)
    sub_ = [btruth(a, vals, n) for a in b.args]
    if op == 'not':
        return sub_[0][1], sub_[0][0]
    t, f = sub_[0]
    for a, c in sub_[1:]:
        if op == 'and':
            t = t & a
            f = f | c
        else:
            t = t | a
            f = f & c
    return t, f


def _atoms(b, out):
    if b.op in ('lt', 'le', 'eq'):
        out.append(b)
    else:
        for a in b.args:
            _atoms(a, out)


class BnBResult:
    def __init__(self, ok, boxes, reason='', worst=None):
        self.ok = ok
        self.boxes = boxes
        self.reason = reason
        self.worst = worst


def refine_box(pc, box):
    """narrow variable bounds using pc atoms of the form sym <=/</== const"""
    box = dict(box)
    changed = True
    for c in pc:
        if c.op in ('lt', 'le', 'eq'):
            a, b = c.args
            if a.op == 'sym' and b.op == 'num' and a.val in box:
                lo, hi = box[a.val]
                v = float(b.val)
                box[a.val] = (lo, min(hi, np.nextafter(v, _PI_))) if c.op != 'eq' else (max(lo, np.nextafter(v, _NI)), min(hi, np.nextafter(v, _PI_)))
            elif b.op == 'sym' and a.op == 'num' and b.val in box:
                lo, hi = box[b.val]
                v = float(a.val)
                box[b.val] = (max(lo, np.nextafter(v, _NI)), hi) if c.op != 'eq' else (max(lo, np.nextafter(v, _NI)), min(hi, np.nextafter(v, _PI_)))
    return box


def bnb(goal, pc, box, max_boxes=200000, deadline=None, min_rel=1e-10, chunk=4096):
    """goal: boolean term to be proved (lt/le/and/or of those); pc: list of boolean
    terms assumed; box: var -> (lo, hi) floats.  Sound: returns ok only if every
    sub-box either contradicts pc or satisfies goal."""
    import time
    from .ir import bnot, cmp_, sub as rsub, ZERO
    box = refine_box(pc, box)
    used = free_syms([goal] + list(pc))
    gsyms = free_syms([goal])
    vars_ = [v for v in box if v in used]
    for v in used:
        if v not in box:
            # unbounded symbol
            if v in gsyms:
                return BnBResult(False, 0, 'unbounded ' + v)
    for v in vars_:
        if not (np.isfinite(box[v][0]) and np.isfinite(box[v][1])):
            if v in gsyms:
                return BnBResult(False, 0, 'unbounded ' + v)
        if box[v][0] > box[v][1]:
            return BnBResult(True, 1, 'empty box')
    # goal atoms: rewrite a<b as a-b<0 so that the mean value form applies
    gat = []

    def lower(b):
        if b.op in ('lt', 'le'):
            d = rsub(b.args[0], b.args[1])
            gat.append(d)
            return (b.op, d)
        if b.op in ('and', 'or'):
            return (b.op, [lower(x) for x in b.args])
        if b.op == 'true':
            return ('true',)
        if b.op == 'false':
            return ('false',)
        if b.op == 'eq':
            d = rsub(b.args[0], b.args[1])
            gat.append(d)
            return ('eq', d)
        raise ValueError(b.op)
    try:
        low = lower(goal)
    except ValueError as e:
        return BnBResult(False, 0, 'goal shape ' + str(e))
    pcs = [c for c in pc if all(s in box for s in free_syms([c]))]
    plan = Plan(gat, vars_)
    cplan = Plan(pcs, vars_)

    def truth(l, rng, n):
        if l[0] == 'true':
            return np.ones(n, bool)
        if l[0] == 'false':
            return np.zeros(n, bool)
        if l[0] == 'lt':
            return rng[l[1].id].hi < 0
        if l[0] == 'le':
            return rng[l[1].id].hi <= 0
        if l[0] == 'eq':
            return (rng[l[1].id].hi == 0) & (rng[l[1].id].lo == 0)
        r = [truth(x, rng, n) for x in l[1]]
        out = r[0]
        for x in r[1:]:
            out = (out & x) if l[0] == 'and' else (out | x)
        return out

    if not vars_:
        vals, _ = ieval(Plan(gat + [], []), {'__d': IV(np.zeros(1), np.zeros(1))})
        ok = truth(low, vals, 1)[0]
        return BnBResult(bool(ok), 1, '' if ok else 'closed goal not decided')
    LO = np.array([[box[v][0] for v in vars_]], dtype=float)
    HI = np.array([[box[v][1] for v in vars_]], dtype=float)
    with np.errstate(all='ignore'):
        W0 = np.maximum(HI[0] - LO[0], 1e-300)
        LOGW0 = np.log(np.maximum(HI[0], 1e-290) / np.maximum(np.maximum(LO[0], HI[0] * 1e-9), 1e-300))
        LOGW0 = np.where(np.isfinite(LOGW0) & (LOGW0 > 1e-9), LOGW0, 1.0)
    total = 0
    worst = None
    stack = [(LO, HI)]
    while stack:
        LO, HI = stack.pop()
        if len(LO) > chunk:
            stack.append((LO[chunk:], HI[chunk:]))
            LO, HI = LO[:chunk], HI[:chunk]
        if deadline and time.process_time() > deadline:
            return BnBResult(False, total, 'time limit', worst)
        n = len(LO)
        total += n
        b = {v: IV(LO[:, i], HI[:, i]) for i, v in enumerate(vars_)}
        keep = np.ones(n, bool)
        if pcs:
            vals, _ = ieval(cplan, b)
            for c in pcs:
                t, f = btruth(c, vals, n)
                keep &= ~f
        if not keep.any():
            continue
        LO, HI = LO[keep], HI[keep]
        n = len(LO)
        b = {v: IV(LO[:, i], HI[:, i]) for i, v in enumerate(vars_)}
        vals, grads = ieval(plan, b, grad=True)
        # mean value form around the midpoint
        mid = np.where((LO > 0) & (HI > 4 * LO), np.sqrt(LO * HI), 0.5 * (LO + HI))
        mid = np.clip(mid, LO, HI)
        bm = {v: IV(mid[:, i], mid[:, i]) for i, v in enumerate(vars_)}
        mvals, _ = ieval(plan, bm)
        rng = {}
        smear = np.zeros((n, len(vars_)))
        for g in gat:
            nat = vals[g.id]
            gr = grads.get(g.id, {})
            if gr is None:
                rng[g.id] = nat
                continue
            # monotone corners: where gradient sign is fixed, evaluate at the corner
            acc = mvals[g.id]
            cl = mid.copy()
            ch = mid.copy()
            anymono = False
            for i, v in enumerate(vars_):
                if v not in gr:
                    continue
                gv = gr[v]
                d = IV(_dn(LO[:, i] - mid[:, i]), _up(HI[:, i] - mid[:, i]))
                acc = iv_add(acc, iv_mul(gv, d))
                w = np.maximum(np.abs(gv.lo), np.abs(gv.hi)) * (HI[:, i] - LO[:, i])
                w = np.where(np.isfinite(w), w, 1e300)
                smear[:, i] = np.maximum(smear[:, i], w)
            lo = np.maximum(nat.lo, acc.lo)
            hi = np.minimum(nat.hi, acc.hi)
            # monotonicity form
            pos = {v: gr[v].lo >= 0 for v in gr}
            neg = {v: gr[v].hi <= 0 for v in gr}
            mono = np.ones(n, bool)
            for v in gr:
                mono &= pos[v] | neg[v]
            if mono.any():
                idx = np.where(mono)[0]
                hb, lb = {}, {}
                for i, v in enumerate(vars_):
                    if v in gr:
                        hv = np.where(pos[v][idx], HI[idx, i], LO[idx, i])
                        lv = np.where(pos[v][idx], LO[idx, i], HI[idx, i])
                    else:
                        hv = lv = mid[idx, i]
                    hb[v] = IV(hv, hv)
                    lb[v] = IV(lv, lv)
                p1 = Plan([g], vars_)
                hv, _ = ieval(p1, hb)
                lv, _ = ieval(p1, lb)
                hi[idx] = np.minimum(hi[idx], hv[g.id].hi)
                lo[idx] = np.maximum(lo[idx], lv[g.id].lo)
            rng[g.id] = IV(lo, hi)
        ok = truth(low, rng, n)
        if ok.all():
            continue
        bad = ~ok
        LO, HI, mid, smear = LO[bad], HI[bad], mid[bad], smear[bad]
        n = len(LO)
        # split on largest smear, falling back to relative width
        relw = (HI - LO) / np.maximum(np.maximum(np.abs(LO), np.abs(HI)), 1e-300)
        inf = (smear >= 1e299).any(axis=1)
        if inf.any():
            # an unbounded slope (sqrt or log at 0): splitting that variable alone never
            # helps its leftmost box, so split on the share of the original range left
            with np.errstate(all='ignore'):
                share = np.where(LO > 0, np.log(HI / LO) / LOGW0, np.where(LO == 0, (HI / W0) ** 0.1, (HI - LO) / W0))
            share = np.nan_to_num(share, nan=0.0, posinf=0.0)
            smear = np.where(inf[:, None], share, smear)
        sm = np.where(relw > min_rel, smear + 1e-9 * relw, -1)
        j = np.argmax(sm, axis=1)
        tiny = sm[np.arange(n), j] < 0
        if tiny.any():
            k = np.where(tiny)[0][0]
            return BnBResult(False, total, 'undecided at box %s' % (
                {v: (float(LO[k, i]), float(HI[k, i])) for i, v in enumerate(vars_)},),
                {v: float(mid[k, i]) for i, v in enumerate(vars_)})
        if total + 2 * n > max_boxes:
            k = 0
            return BnBResult(False, total, 'box limit; e.g. undecided %s' % (
                {v: (float(LO[k, i]), float(HI[k, i])) for i, v in enumerate(vars_)},),
                {v: float(mid[k, i]) for i, v in enumerate(vars_)})
        A_HI = HI.copy()
        B_LO = LO.copy()
        r = np.arange(n)
        A_HI[r, j] = mid[r, j]
        B_LO[r, j] = mid[r, j]
        stack.append((np.concatenate([LO, B_LO]), np.concatenate([A_HI, HI])))
    return BnBResult(True, total)
