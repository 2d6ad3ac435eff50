"""Hash-consed term language of the verifier.

Terms of sort Real are instances of R, terms of sort Bool are instances of B.
The real code of /repo is executed on R values (see engine.py); the operators
below only build terms (plus exact constant folding over the rationals), they
never decide anything.  Deciding is left to the back ends.
"""
from fractions import Fraction
import math

_TABLE = {}
_NEXT = [0]
ENGINE = None          # current symbolic engine (engine.Engine) or None

INF = float('inf')


def set_engine(e):
    global ENGINE
    ENGINE = e


class Unsupported(BaseException):
    """The executed code did something the symbolic semantics does not cover."""


def _mk(cls, op, args, val=None):
    key = (op, args if op != 'fn' else (val,) + args, val)
    key = (op, val) + tuple(a.id if isinstance(a, (R, B)) else a for a in args)
    t = _TABLE.get(key)
    if t is None:
        t = object.__new__(cls)
        t.op = op
        t.args = args
        t.val = val
        t.id = _NEXT[0]
        _NEXT[0] += 1
        _TABLE[key] = t
    return t


def num(x):
    if isinstance(x, R):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x or x in (INF, -INF):
            raise Unsupported('non-finite constant in arithmetic')
        x = Fraction(x)
    elif not isinstance(x, Fraction):
        x = Fraction(x)
    return _mk(R, 'num', (), x)


def lit(s):
    """decimal literal -> exact rational constant (the double nearest to a simple
    multiple of pi, written with at least 15 digits, stands for that multiple)"""
    if len(s) >= 15:
        y = PIFLOAT.get(float(s))
        if y is not None:
            return y
    return num(Fraction(s))


def sym(name):
    return _mk(R, 'sym', (), name)


def _isnum(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, R)


def coerce(x):
    if isinstance(x, R):
        return x
    if isinstance(x, (bool, int, Fraction)):
        return num(x)
    if isinstance(x, float):
        if x != x or x in (INF, -INF):
            return None
        y = PIFLOAT.get(abs(x))
        if y is not None:          # the double nearest to a simple multiple of pi stands for it
            return y if x > 0 else neg(y)
        return num(Fraction(repr(x)))      # decimal literals are taken at their written value
    # numpy scalars
    t = type(x).__module__
    if t == 'numpy' and getattr(x, 'shape', None) == ():
        return coerce(x.item())
    return None


ZERO = None
ONE = None


def add(a, b):
    if a.op == 'num':
        if b.op == 'num':
            return num(a.val + b.val)
        if a.val == 0:
            return b
    if b.op == 'num' and b.val == 0:
        return a
    if a.id > b.id:
        a, b = b, a
    if b.op == 'mul' and b.args[0].op == 'num' and b.args[0].val == -1 and b.args[1] is a:
        return num(0)
    if a.op == 'mul' and a.args[0].op == 'num' and a.args[0].val == -1 and a.args[1] is b:
        return num(0)
    return _mk(R, 'add', (a, b))


def mul(a, b):
    if b.op == 'num':
        a, b = b, a
    if a.op == 'num':
        if b.op == 'num':
            return num(a.val * b.val)
        if a.val == 0:
            return a
        if a.val == 1:
            return b
        if b.op == 'mul' and b.args[0].op == 'num':
            return mul(num(a.val * b.args[0].val), b.args[1])
        return _mk(R, 'mul', (a, b))
    if a.op == 'mul' and a.args[0].op == 'num':
        return mul(a.args[0], mul(a.args[1], b))
    if b.op == 'mul' and b.args[0].op == 'num':
        return mul(b.args[0], mul(a, b.args[1]))
    if a.id > b.id:
        a, b = b, a
    return _mk(R, 'mul', (a, b))


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def pw(a, e):
    """a ** e, e an R"""
    if e.op == 'num':
        ev = e.val
        if ev == 1:
            return a
        if ev == 0:
            return num(1)
        if a.op == 'num':
            if ev.denominator == 1 and abs(ev.numerator) <= 4000:
                if a.val == 0:
                    if ev < 0:
                        raise ZeroDivisionError
                    return a
                return num(a.val ** ev.numerator)
            if a.val == 1:
                return a
            if a.val == 0 and ev > 0:
                return a
            if a.val > 0 and ev.denominator == 2:
                # exact square roots of perfect squares
                p, q = a.val.numerator, a.val.denominator
                rp, rq = math.isqrt(p), math.isqrt(q)
                if rp * rp == p and rq * rq == q:
                    return num(Fraction(rp, rq) ** ev.numerator)
    elif a.op == 'num' and a.val == 1:
        return a
    return _mk(R, 'pow', (a, e))


def div(a, b):
    if b.op == 'num':
        if b.val == 0:
            raise ZeroDivisionError('division by zero')
        return mul(num(1 / b.val), a)
    return mul(a, pw(b, num(-1)))


def fn(name, *args):
    if len(args) == 1 and args[0].op == 'num':
        v = args[0].val
        if name == 'exp' and v == 0:
            return num(1)
        if name == 'log' and v == 1:
            return num(0)
        if name in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh', 'asinh', 'erf') and v == 0:
            return num(0)
        if name in ('cos', 'cosh') and v == 0:
            return num(1)
        if name == 'acos' and v == 1:
            return num(0)
        if name == 'floor':
            return num(math.floor(v))
    if len(args) == 1:
        a = args[0]
        if name == 'exp' and a.op == 'fn' and a.val == 'log':
            return a.args[0]
        if name == 'log' and a.op == 'fn' and a.val == 'exp':
            return a.args[0]
    return _mk(R, 'fn', args, name)


PI = None


# ---------------------------------------------------------------- booleans
def blit(x):
    return _mk(B, 'true' if x else 'false', ())


def closed_sign(t):
    """sign of a closed (symbol free) term by rigorous evaluation, or None"""
    if t.op == 'num':
        return (t.val > 0) - (t.val < 0)
    from . import ival
    return ival.closed_sign(t)


def is_closed(t):
    c = _CLOSED.get(t.id)
    if c is None:
        if t.op in ('sym', 'ufn'):
            c = False
        elif t.op == 'num':
            c = True
        else:
            # iterative
            stack = [t]
            while stack:
                u = stack[-1]
                if u.id in _CLOSED:
                    stack.pop()
                    continue
                if u.op in ('sym', 'ufn'):
                    _CLOSED[u.id] = False
                    stack.pop()
                    continue
                todo = [a for a in u.args if a.id not in _CLOSED]
                if todo:
                    stack.extend(todo)
                else:
                    _CLOSED[u.id] = all(_CLOSED[a.id] for a in u.args)
                    stack.pop()
            c = _CLOSED[t.id]
        _CLOSED[t.id] = c
    return c


_CLOSED = {}


def cmp_(op, a, b):
    """a op b with op in lt, le, eq"""
    if a is b:
        return blit(op != 'lt')
    if a.op == 'num' and b.op == 'num':
        return blit({'lt': a.val < b.val, 'le': a.val <= b.val, 'eq': a.val == b.val}[op])
    if is_closed(a) and is_closed(b):
        s = closed_sign(sub(a, b))
        if s is not None:
            return blit({'lt': s < 0, 'le': s <= 0, 'eq': s == 0}[op])
    if op == 'eq' and a.id > b.id:
        a, b = b, a
    return _mk(B, op, (a, b))


def bnot(b):
    if b.op == 'true':
        return blit(False)
    if b.op == 'false':
        return blit(True)
    if b.op == 'not':
        return b.args[0]
    if b.op == 'lt':
        return _mk(B, 'le', (b.args[1], b.args[0]))
    if b.op == 'le':
        return _mk(B, 'lt', (b.args[1], b.args[0]))
    if b.op == 'and':
        return bor(*[bnot(x) for x in b.args])
    if b.op == 'or':
        return band(*[bnot(x) for x in b.args])
    return _mk(B, 'not', (b,))


def band(*bs):
    out = []
    for b in bs:
        if b.op == 'false':
            return b
        if b.op == 'true':
            continue
        if b.op == 'and':
            out.extend(b.args)
        else:
            out.append(b)
    if not out:
        return blit(True)
    if len(out) == 1:
        return out[0]
    return _mk(B, 'and', tuple(out))


def bor(*bs):
    out = []
    for b in bs:
        if b.op == 'true':
            return b
        if b.op == 'false':
            continue
        if b.op == 'or':
            out.extend(b.args)
        else:
            out.append(b)
    if not out:
        return blit(False)
    if len(out) == 1:
        return out[0]
    return _mk(B, 'or', tuple(out))


def implies(a, b):
    return bor(bnot(a), b)


class B:
    __slots__ = ('op', 'args', 'val', 'id', '__weakref__')

    def __bool__(self):
        if self.op == 'true':
            return True
        if self.op == 'false':
            return False
        if ENGINE is None:
            raise Unsupported('symbolic branch outside the engine')
        return ENGINE.decide(self)

    def __and__(self, o):
        return band(self, o if isinstance(o, B) else blit(bool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o if isinstance(o, B) else blit(bool(o)))
    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __eq__(self, o):
        if isinstance(o, B):
            return self is o or bool(self) == bool(o)
        if isinstance(o, (bool, int)):
            return bool(self) == bool(o)
        return NotImplemented

    def __hash__(self):
        return self.id

    def __repr__(self):
        return show(self)


def _cmp_inf(op, a, x):
    """a op x for finite a and x in {inf,-inf,nan}"""
    if x != x:
        return False
    if op in ('lt', 'le'):
        return x > 0
    if op in ('gt', 'ge'):
        return x < 0
    return False


class R:
    __slots__ = ('op', 'args', 'val', 'id', '__weakref__')
    __array_priority__ = 1e9
    __array_ufunc__ = None

    def __add__(self, o):
        c = coerce(o)
        if c is None:
            return _nonfinite('add', self, o)
        return add(self, c)

    def __radd__(self, o):
        c = coerce(o)
        if c is None:
            return _nonfinite('add', self, o)
        return add(c, self)

    def __sub__(self, o):
        c = coerce(o)
        if c is None:
            return _nonfinite('sub', self, o)
        return sub(self, c)

    def __rsub__(self, o):
        c = coerce(o)
        if c is None:
            return _nonfinite('rsub', self, o)
        return sub(c, self)

    def __mul__(self, o):
        c = coerce(o)
        if c is None:
            return _nonfinite('mul', self, o)
        return mul(self, c)

    def __rmul__(self, o):
        c = coerce(o)
        if c is None:
            return _nonfinite('mul', self, o)
        return mul(c, self)

    def __truediv__(self, o):
        c = coerce(o)
        if c is None:
            return _nonfinite('div', self, o)
        return safediv(self, c)

    def __rtruediv__(self, o):
        c = coerce(o)
        if c is None:
            return _nonfinite('rdiv', self, o)
        return safediv(c, self)

    def __floordiv__(self, o):
        c = coerce(o)
        if c is None:
            return NotImplemented
        return sfloor(safediv(self, c))

    def __rfloordiv__(self, o):
        c = coerce(o)
        if c is None:
            return NotImplemented
        return sfloor(safediv(c, self))

    def __mod__(self, o):
        c = coerce(o)
        if c is None:
            return NotImplemented
        return sub(self, mul(c, sfloor(safediv(self, c))))

    def __rmod__(self, o):
        c = coerce(o)
        if c is None:
            return NotImplemented
        return c % self

    def __pow__(self, o):
        c = coerce(o)
        if c is None:
            return _nonfinite('pow', self, o)
        return safepow(self, c)

    def __rpow__(self, o):
        c = coerce(o)
        if c is None:
            return _nonfinite('rpow', self, o)
        return safepow(c, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        if is_closed(self):
            s = closed_sign(self)
            if s is not None:
                return self if s >= 0 else neg(self)
        return self if bool(cmp_('le', num(0), self)) else neg(self)

    def __lt__(self, o):
        c = coerce(o)
        if c is None:
            return _cmp_inf('lt', self, o) if isinstance(o, float) else NotImplemented
        return cmp_('lt', self, c)

    def __le__(self, o):
        c = coerce(o)
        if c is None:
            return _cmp_inf('le', self, o) if isinstance(o, float) else NotImplemented
        return cmp_('le', self, c)

    def __gt__(self, o):
        c = coerce(o)
        if c is None:
            return _cmp_inf('gt', self, o) if isinstance(o, float) else NotImplemented
        return cmp_('lt', c, self)

    def __ge__(self, o):
        c = coerce(o)
        if c is None:
            return _cmp_inf('ge', self, o) if isinstance(o, float) else NotImplemented
        return cmp_('le', c, self)

    def __eq__(self, o):
        c = coerce(o)
        if c is None:
            return False
        return cmp_('eq', self, c)

    def __ne__(self, o):
        c = coerce(o)
        if c is None:
            return True
        return bnot(cmp_('eq', self, c))

    def __hash__(self):
        if self.op == 'num':
            return hash(self.val)
        return self.id

    def __bool__(self):
        if self.op == 'num':
            return self.val != 0
        return bool(self != 0)

    def __int__(self):
        if self.op == 'num':
            return int(self.val)
        if is_closed(self):
            from . import ival
            v = ival.closed_float(self)
            if abs(v - round(v)) > 1e-9:
                return int(v)
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        if self.op == 'num' and self.val.denominator == 1:
            # Python floats are not valid indices; only reached for ints we wrapped
            return int(self.val)
        raise Unsupported('symbolic index')

    def __trunc__(self):
        return int(self)

    def __float__(self):
        if is_closed(self):
            from . import ival
            return ival.closed_float(self)
        raise Unsupported('float() of a symbolic value reached native code')

    def __complex__(self):
        return complex(float(self))

    def __round__(self, n=None):
        if is_closed(self):
            v = round(float(self), n)
            return v if n is None else num(Fraction(repr(v)) if isinstance(v, float) else v)
        return ENGINE.sround(self, n) if ENGINE else fn('round%s' % n, self)

    def __floor__(self):
        return sfloor(self)

    def __ceil__(self):
        return neg(sfloor(neg(self)))

    def is_integer(self):
        if self.op == 'num':
            return self.val.denominator == 1
        return bool(cmp_('eq', self, sfloor(self)))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return num(0)

    def conjugate(self):
        return self

    def __repr__(self):
        return show(self)

    def __str__(self):
        return show(self)

    def __format__(self, spec):
        if self.op == 'num':
            try:
                return format(float(self.val), spec)
            except Exception:
                return str(self.val)
        return show(self)


def sfloor(x):
    if x.op == 'num':
        return num(math.floor(x.val))
    if ENGINE is not None:
        return ENGINE.sfloor(x)
    return fn('floor', x)


def _nonfinite(op, a, x):
    if not isinstance(x, (float, int)) or isinstance(x, R):
        if isinstance(x, complex):
            raise Unsupported('complex arithmetic')
        return NotImplemented
    if x != x:
        return x
    # x = +-inf, a finite
    if op == 'add':
        return x
    if op == 'sub':
        return -x
    if op == 'rsub':
        return x
    if op == 'div':
        return num(0)
    if op in ('mul', 'rdiv'):
        if a > 0:
            return x
        if a < 0:
            return -x
        raise Unsupported('0*inf')
    if op == 'pow':
        raise Unsupported('x**inf')
    raise Unsupported('inf')


def safediv(a, b):
    if b.op == 'num':
        if b.val == 0:
            raise ZeroDivisionError('division by zero')
    elif ENGINE is not None:
        ENGINE.defined_div(b)
    return div(a, b)


def safepow(a, e):
    if ENGINE is not None:
        ENGINE.defined_pow(a, e)
    elif a.op == 'num' and a.val == 0 and e.op == 'num' and e.val < 0:
        raise ZeroDivisionError('0 ** negative')
    return pw(a, e)


def truediv(a, b):
    """a / b as instrumented code sees it"""
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return num(Fraction(int(a), int(b)))
    return a / b


def power(a, b):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        if b >= 0:
            return int(a) ** int(b)
        return num(Fraction(int(a)) ** int(b))
    return a ** b


_SHOWLIM = 400


def show(t, depth=0):
    if depth > 14:
        return '...'
    if t.op == 'num':
        v = t.val
        if v.denominator == 1:
            return str(v.numerator)
        f = float(v)
        return repr(f)
    if t.op == 'sym':
        return str(t.val)
    d = depth + 1
    if t.op == 'add':
        return '(%s + %s)' % (show(t.args[0], d), show(t.args[1], d))
    if t.op == 'mul':
        return '%s*%s' % (show(t.args[0], d), show(t.args[1], d))
    if t.op == 'pow':
        return '(%s)**%s' % (show(t.args[0], d), show(t.args[1], d))
    if t.op in ('fn', 'ufn'):
        return '%s(%s)' % (t.val, ', '.join(show(a, d) for a in t.args))
    s = {'lt': '<', 'le': '<=', 'eq': '=='}.get(t.op)
    if s:
        return '%s %s %s' % (show(t.args[0], d), s, show(t.args[1], d))
    if t.op in ('true', 'false'):
        return t.op
    return '%s(%s)' % (t.op, ', '.join(show(a, d) for a in t.args))


def ufn(name, *args):
    """uninterpreted function application (black-box callables in contracts)"""
    return _mk(R, 'ufn', tuple(coerce(a) for a in args), name)


ZERO = num(0)
ONE = num(1)
PI = _mk(R, 'fn', (), 'pi')


def _pifloats():
    import mpmath
    out = {}
    with mpmath.workprec(200):
        for inv in (False, True):
            for q in (1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 16, 18, 20, 24, 32, 36, 45, 60, 90, 120, 180, 360):
                for p in range(1, 17):
                    f = Fraction(p, q)
                    for g in {f, 1 / f}:
                        v = mpmath.mpf(g.numerator) / g.denominator * (1 / mpmath.pi if inv else mpmath.pi)
                        out[float(v)] = (g, inv)
    return {k: mul(num(g), pw(PI, num(-1)) if inv else PI) for k, (g, inv) in out.items()}


PIFLOAT = _pifloats()


def free_syms(ts):
    """names of symbols occurring in an iterable of terms"""
    seen = set()
    out = []
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'sym':
            out.append(t.val)
        else:
            stack.extend(t.args)
    return out


def topo(ts):
    """all sub-terms, children first"""
    seen = set()
    order = []
    for root in ts:
        stack = [(root, False)]
        while stack:
            t, done = stack.pop()
            if done:
                order.append(t)
                continue
            if t.id in seen:
                continue
            seen.add(t.id)
            stack.append((t, True))
            for a in t.args:
                if a.id not in seen:
                    stack.append((a, False))
    return order


def subst(t, mp):
    """replace terms (dict id -> term)"""
    memo = dict(mp)
    for u in topo([t]):
        if u.id in memo:
            continue
        if not u.args:
            memo[u.id] = u
            continue
        na = tuple(memo[a.id] for a in u.args)
        if all(x is y for x, y in zip(na, u.args)):
            memo[u.id] = u
        else:
            memo[u.id] = rebuild(u, na)
    return memo[t.id]


def rebuild(u, na):
    if u.op == 'add':
        return add(*na)
    if u.op == 'mul':
        return mul(*na)
    if u.op == 'pow':
        return pw(*na)
    if u.op == 'fn':
        return fn(u.val, *na)
    if u.op == 'ufn':
        return ufn(u.val, *na)
    if u.op in ('lt', 'le', 'eq'):
        return cmp_(u.op, *na)
    if u.op == 'not':
        return bnot(*na)
    if u.op == 'and':
        return band(*na)
    if u.op == 'or':
        return bor(*na)
    raise AssertionError(u.op)


def diff(t, name):
    """symbolic partial derivative d t / d sym(name) (valid where t is smooth)"""
    memo = {}
    for u in topo([t]):
        if u.op == 'num' or (u.op == 'fn' and not u.args):
            d = ZERO
        elif u.op == 'sym':
            d = ONE if u.val == name else ZERO
        elif u.op == 'add':
            d = add(memo[u.args[0].id], memo[u.args[1].id])
        elif u.op == 'mul':
            a, b = u.args
            d = add(mul(memo[a.id], b), mul(a, memo[b.id]))
        elif u.op == 'pow':
            a, e = u.args
            da, de = memo[a.id], memo[e.id]
            d = ZERO
            if da is not ZERO:
                d = mul(mul(e, pw(a, sub(e, ONE))), da)
            if de is not ZERO:
                d = add(d, mul(mul(u, fn('log', a)), de))
        elif u.op == 'fn':
            a = u.args[0]
            da = memo[a.id]
            if da is ZERO:
                d = ZERO
            else:
                n = u.val
                if n == 'exp':
                    g = u
                elif n == 'log':
                    g = pw(a, num(-1))
                elif n == 'sin':
                    g = fn('cos', a)
                elif n == 'cos':
                    g = neg(fn('sin', a))
                elif n == 'tan':
                    g = add(ONE, mul(u, u))
                elif n == 'asin':
                    g = pw(sub(ONE, mul(a, a)), num(Fraction(-1, 2)))
                elif n == 'acos':
                    g = neg(pw(sub(ONE, mul(a, a)), num(Fraction(-1, 2))))
                elif n == 'atan':
                    g = pw(add(ONE, mul(a, a)), num(-1))
                elif n == 'erf':
                    g = mul(mul(num(2), pw(PI, num(Fraction(-1, 2)))), fn('exp', neg(mul(a, a))))
                elif n == 'asinh':
                    g = pw(add(ONE, mul(a, a)), num(Fraction(-1, 2)))
                elif n == 'acosh':
                    g = pw(sub(mul(a, a), ONE), num(Fraction(-1, 2)))
                elif n == 'sinh':
                    g = fn('cosh', a)
                elif n == 'cosh':
                    g = fn('sinh', a)
                elif n == 'tanh':
                    g = sub(ONE, mul(u, u))
                else:
                    raise Unsupported('derivative of ' + n)
                d = mul(g, da)
        else:
            raise Unsupported('derivative of ' + u.op)
        memo[u.id] = d
    return memo[t.id]
