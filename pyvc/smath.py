"""Symbolic-aware replacement of the `math` module for the instrumented copy of
the code under verification.  Every function builds a term; definedness side
conditions go to the engine as obligations."""
import math as _m
from fractions import Fraction
from . import ir
from .ir import R, num, coerce, fn, PI, Unsupported

inf = float('inf')
nan = float('nan')
pi = PI
e = fn('exp', num(1))
tau = ir.mul(num(2), PI)


def _c(x):
    c = coerce(x)
    return c


def _nonneg(x, what):
    if ir.is_closed(x):
        s = ir.closed_sign(x)
        if s is not None and s < 0:
            raise ValueError('math domain error')
        return
    if ir.ENGINE is not None:
        ir.ENGINE.defined_le(num(0), x, what)


def _pos(x, what):
    if ir.is_closed(x):
        s = ir.closed_sign(x)
        if s is not None and s <= 0:
            raise ValueError('math domain error')
        return
    if ir.ENGINE is not None:
        ir.ENGINE.defined_lt(num(0), x, what)


def sqrt(x):
    c = _c(x)
    if c is None:
        return _m.sqrt(x)
    _nonneg(c, 'sqrt')
    return ir.pw(c, num(Fraction(1, 2)))


def cbrt(x):
    c = _c(x)
    if c >= 0:
        return ir.pw(c, num(Fraction(1, 3)))
    return ir.neg(ir.pw(ir.neg(c), num(Fraction(1, 3))))


def exp(x):
    c = _c(x)
    if c is None:
        return num(0) if x == -inf else _m.exp(x)
    return fn('exp', c)


def expm1(x):
    return exp(x) - 1


def log(x, base=None):
    c = _c(x)
    if c is None:
        return _m.log(x)
    if c.op == 'num' and c.val <= 0:
        raise ValueError('math domain error')
    _pos(c, 'log')
    r = fn('log', c)
    if base is not None:
        r = r / log(base)
    return r


def log1p(x):
    return log(1 + x)


def log10(x):
    return log(x) / fn('log', num(10)) if _c(x) is not None else _m.log10(x)


def log2(x):
    return log(x) / fn('log', num(2))


def pow(x, y):
    return ir.power(coerce(x), y)


def _u(name, dom=None):
    def f(x):
        c = _c(x)
        if c is None:
            return getattr(_m, name)(x)
        if dom:
            dom(c)
        return fn(name, c)
    f.__name__ = name
    return f


def _dom1(c):
    if ir.is_closed(c):
        if ir.closed_sign(c - 1) > 0 or ir.closed_sign(c + 1) < 0:
            raise ValueError('math domain error')
        return
    if ir.ENGINE is not None:
        ir.ENGINE.defined_le(num(-1), c, 'asin/acos lower')
        ir.ENGINE.defined_le(c, num(1), 'asin/acos upper')


def _domge1(c):
    if ir.ENGINE is not None and not ir.is_closed(c):
        ir.ENGINE.defined_le(num(1), c, 'acosh')


sin = _u('sin')
cos = _u('cos')
tan = _u('tan')
asin = _u('asin', _dom1)
acos = _u('acos', _dom1)
atan = _u('atan')
sinh = _u('sinh')
cosh = _u('cosh')
tanh = _u('tanh')
asinh = _u('asinh')
acosh = _u('acosh', _domge1)
erf = _u('erf')


def atanh(x):
    return log((1 + x) / (1 - x)) / 2


def erfc(x):
    return 1 - erf(x)


def gamma(x):
    c = _c(x)
    if ir.is_closed(c):
        v = _m.gamma(float(c))
        return num(Fraction(v))
    return fn('gamma', c)


def lgamma(x):
    c = _c(x)
    if ir.is_closed(c):
        return num(Fraction(_m.lgamma(float(c))))
    return fn('loggamma', c)


def atan2(y, x):
    y = coerce(y)
    x = coerce(x)
    if x > 0:
        return atan(y / x)
    if x < 0:
        if y >= 0:
            return atan(y / x) + pi
        return atan(y / x) - pi
    if y > 0:
        return pi / 2
    if y < 0:
        return -pi / 2
    return num(0)


def fabs(x):
    return abs(x) if isinstance(x, R) else coerce(abs(x))


def hypot(*a):
    s = num(0)
    for x in a:
        s = s + x * x
    return sqrt(s)


def degrees(x):
    return x * 180 / pi


def radians(x):
    return x * pi / 180


def floor(x):
    c = _c(x)
    r = ir.sfloor(c)
    return int(r.val) if r.op == 'num' else r


def ceil(x):
    c = _c(x)
    r = ir.neg(ir.sfloor(ir.neg(c)))
    return int(r.val) if r.op == 'num' else r


def trunc(x):
    c = _c(x)
    return floor(c) if c >= 0 else ceil(c)


def isinf(x):
    if isinstance(x, R):
        return False
    return _m.isinf(x)


def isnan(x):
    if isinstance(x, R):
        return False
    return _m.isnan(x)


def isfinite(x):
    if isinstance(x, R):
        return True
    return _m.isfinite(x)


def copysign(x, y):
    a = abs(coerce(x))
    return a if coerce(y) >= 0 else -a


def fmod(x, y):
    q = x / y
    return x - y * trunc(q)


def modf(x):
    t = trunc(x)
    return (x - t, t)


def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    a = coerce(a)
    b = coerce(b)
    d = abs(a - b)
    return bool(d <= rel_tol * max(abs(a), abs(b))) or bool(d <= abs_tol)


def fsum(xs):
    s = num(0)
    for x in xs:
        s = s + x
    return s


def prod(xs, start=1):
    s = coerce(start)
    for x in xs:
        s = s * x
    return s


def factorial(n):
    return _m.factorial(int(n))


def comb(n, k):
    return _m.comb(int(n), int(k))


def gcd(*a):
    return _m.gcd(*a)


def frexp(x):
    return _m.frexp(float(x))


def ldexp(x, i):
    return coerce(x) * Fraction(2) ** int(i)


def nextafter(a, b):
    return _m.nextafter(float(a), float(b))


def ulp(a):
    return _m.ulp(float(a))
