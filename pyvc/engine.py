"""Verification-condition generation by exhaustive symbolic execution of the
instrumented real code, and the specification API `S`.

A specification is a Python function spec(S).  It declares universally
quantified inputs (S.real ...), preconditions (S.assume), runs functions of the
code under verification (S.call ...) and states postconditions (S.eq, S.le ...).
Run symbolically it yields one obligation per postcondition and path; run
concretely (class Conc) the same text is the replay of a counterexample on the
unmodified package.
"""
import random
import time
import traceback
from fractions import Fraction
from . import ir, nf, oracle, smt, contracts
from .ir import R, B, num, sym, coerce, Unsupported


class PathEnd(BaseException):
    """infeasible or deliberately stopped path"""


class Discard(BaseException):
    """concrete run outside the precondition"""


class Obligation:
    __slots__ = ('label', 'pc', 'goal', 'kind', 'box', 'choices', 'rtol', 'data', 'fresh', 'lhs', 'rhs', 'atol', 'status',
                 'backend', 'detail', 'secs', 'witness')

    def __init__(self, label, pc, goal, kind, box, choices, **kw):
        self.label, self.pc, self.goal, self.kind = label, pc, goal, kind
        self.box, self.choices = box, choices
        self.rtol = kw.get('rtol', 0.0)
        self.atol = kw.get('atol', 0.0)
        self.lhs, self.rhs = kw.get('lhs'), kw.get('rhs')
        self.data = kw.get('data')
        self.fresh = kw.get('fresh', ())
        self.status = None
        self.backend = None
        self.detail = ''
        self.secs = 0.0
        self.witness = None

    def key(self):
        return (self.label, self.kind, tuple(sorted(c.id for c in self.pc)), self.goal.id,
                tuple(sorted((k, str(v)) for k, v in self.choices.items())))


class Engine:
    MAXDEC = 3000

    def __init__(self, max_paths=3000, deadline=None, smt_ms=300):
        self.obls = {}
        self.max_paths = max_paths
        self.deadline = deadline
        self.touched = set()
        self.overrides = {}
        self.in_override = set()
        self.try_depth = 0
        self.smt_ms = smt_ms
        self.feas_cache = {}
        self.paths = 0
        self.completed = 0
        self.errors = []
        self.check_defined = True
        self.defcount = 0
        self.contracts_used = set()
        self.assumptions = set()
        self.covers = {}

    # ----------------------------------------------------------- exploration
    def run(self, spec):
        work = [()]
        while work:
            if self.paths >= self.max_paths:
                self.errors.append('path limit %d reached' % self.max_paths)
                break
            if self.deadline and time.process_time() > self.deadline:
                self.errors.append('time limit during path exploration')
                break
            self.prefix = work.pop()
            self.taken = []
            self.work = work
            self.pos = 0
            self.or_ = oracle.Oracle()
            self.pc = []
            self.choices = {}
            self.nfresh = 0
            self.freshnames = []
            self.try_depth = 0
            self.in_override = set()
            self.overrides = {}
            contracts.install(self)
            self.root_domain = None
            self.system_domain = None
            self.check_defined = True
            self.smt_feas = True
            self.paths += 1
            S = Sym(self)
            ir.set_engine(self)
            try:
                spec(S)
                self.completed += 1
            except PathEnd:
                pass
            except Unsupported as e:
                self.errors.append('unsupported: %s @ %s' % (e, _where()))
            except RecursionError:
                self.errors.append('recursion limit')
            except Exception as e:
                self.errors.append('internal: %s: %s @ %s' % (type(e).__name__, e, _where()))
            finally:
                ir.set_engine(None)
        return self

    # ----------------------------------------------------------- branching
    def assume(self, b):
        if not isinstance(b, B):
            if not b:
                raise PathEnd()
            return
        if b.op == 'true':
            return
        if b.op == 'and':
            for x in b.args:
                self.assume(x)
            return
        v = self.or_.decide(b)
        if v is False:
            raise PathEnd()
        if v is True and self.or_.truth.get(b.id):
            return
        self.pc.append(b)
        self.or_.add(b)

    def _smt_refutes(self, b):
        """is pc & b unsatisfiable?"""
        key = (frozenset(c.id for c in self.pc), b.id)
        r = self.feas_cache.get(key)
        if r is None:
            r = False
            if self.smt_feas:
                rel = relevant(self.pc, b)
                try:
                    st, _, _ = smt.check(rel, ir.bnot(b), self.or_, self.smt_ms)
                    r = st == 'unsat'
                except Unsupported:
                    r = False
            self.feas_cache[key] = r
        return r

    def decide(self, b):
        v = self.or_.decide(b)
        if v is not None:
            return v
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(v)
            self.assume(b if v else ir.bnot(b))
            return v
        self.pos += 1
        if len(self.taken) > self.MAXDEC:
            raise Unsupported('too many symbolic branches on one path (unbounded loop?)')
        nb = ir.bnot(b)
        if self._smt_refutes(b):
            v = False
        elif self._smt_refutes(nb):
            v = True
        else:
            self.work.append(tuple(self.taken) + (False,))
            v = True
        self.taken.append(v)
        self.assume(b if v else nb)
        return v

    def choose(self, n):
        """non-deterministic integer 0..n-1"""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            for i in range(n - 1, 0, -1):
                self.work.append(tuple(self.taken) + (i,))
            v = 0
        self.pos += 1
        self.taken.append(v)
        return v

    # ----------------------------------------------------------- definedness
    def _defined(self, b, exc, what):
        """b must hold for the operation to be defined"""
        v = self.or_.decide(b)
        if v is True:
            return
        if self.try_depth > 0 or v is False:
            if not self.decide(b):
                raise exc
            return
        if self.check_defined:
            self.add(Obligation('defined:' + what, tuple(self.pc), b, 'defined', dict(self.or_.box), dict(self.choices),
                                fresh=tuple(self.freshnames)))
        else:
            self.assumptions.add('definedness of divisions/roots/logarithms assumed where not discharged (%s)' % what)
        self.assume(b)

    def defined_div(self, b):
        r = self.or_.rng(b)
        if r[0] > 0 or r[1] < 0:
            return
        self._defined(ir.bnot(ir.cmp_('eq', b, ir.ZERO)), ZeroDivisionError('float division by zero'), 'division')

    def defined_le(self, a, b, what):
        if self.or_.rng(ir.sub(b, a))[0] >= 0:
            return
        self._defined(ir.cmp_('le', a, b), ValueError('math domain error'), what)

    def defined_lt(self, a, b, what):
        if self.or_.rng(ir.sub(b, a))[0] > 0:
            return
        self._defined(ir.cmp_('lt', a, b), ValueError('math domain error'), what)

    def defined_pow(self, a, e):
        if e.op == 'num' and e.val.denominator == 1:
            if e.val < 0:
                if a.op == 'num' and a.val == 0:
                    raise ZeroDivisionError('0.0 cannot be raised to a negative power')
                self.defined_div(a)
            return
        if ir.is_closed(a):
            s = ir.closed_sign(a)
            if s is not None and s > 0:
                return
            if s == 0 and self.or_.rng(e)[0] > 0:
                return
        r = self.or_.rng(a)
        if r[0] > 0:
            return
        er = self.or_.rng(e)
        if er[0] > 0:
            if r[0] >= 0:
                return
            # Python returns a complex number for a negative base
            self._defined(ir.cmp_('le', ir.ZERO, a), Unsupported('negative base with fractional power'), 'pow base')
        else:
            self._defined(ir.cmp_('lt', ir.ZERO, a), ZeroDivisionError('0.0 cannot be raised to a negative power'), 'pow base')

    def fresh(self, pre='r'):
        self.nfresh += 1
        n = '%s!%d' % (pre, self.nfresh)
        self.freshnames.append(n)
        return sym(n)

    def sfloor(self, x):
        return ir.fn('floor', x)

    def sint(self, x):
        r = self.or_.rng(x)
        import math
        if r[1] - r[0] < 40 and abs(r[0]) < 1e6:
            # enumerate
            lo = int(math.floor(r[0]))
            hi = int(math.floor(r[1]))
            for k in range(lo, hi):
                if self.decide(ir.cmp_('lt', x, num(k + 1))):
                    return k if k >= 0 else k + 1
            return hi if hi >= 0 else hi + 1
        raise Unsupported('int() of a symbolic value')

    def sround(self, x, n):
        r = ir.fn('round%s' % n, x)
        h = num(Fraction(1, 2) / Fraction(10) ** (n or 0))
        self.assume(ir.cmp_('le', r - x, h))
        self.assume(ir.cmp_('le', x - r, h))
        return r

    def add(self, ob):
        k = ob.key()
        if k not in self.obls:
            self.obls[k] = ob


def relevant(pc, b):
    """conjuncts sharing (transitively) symbols with b"""
    want = set(ir.free_syms([b]))
    rem = [(c, set(ir.free_syms([c]))) for c in pc]
    out = []
    changed = True
    while changed:
        changed = False
        keep = []
        for c, sy in rem:
            if sy & want:
                want |= sy
                out.append(c)
                changed = True
            else:
                keep.append((c, sy))
        rem = keep
    return out


def _where():
    import sys
    tb = sys.exc_info()[2]
    last = ''
    fr = traceback.extract_tb(tb)
    for f in fr:
        if '/fluids/' in f.filename:
            last = '%s:%d' % (f.filename.split('/fluids/')[-1], f.lineno)
    if not last and fr:
        last = '%s:%d' % (fr[-1].filename, fr[-1].lineno)
    return last


class Outcome:
    """result of S.attempt: either a value or an exception"""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None


_REALTYPES = (int, float)


def resolve(qual, symbolic):
    from . import instr
    parts = qual.split('.')
    assert parts[0] == 'fluids', qual
    # longest importable module prefix
    import importlib
    instr.install()
    root = instr.SPKG if symbolic else 'fluids'
    import importlib.util
    mod = importlib.import_module(root)
    i = 1
    while i < len(parts):
        name = '.'.join([root] + parts[1:i + 1])
        try:
            m2 = importlib.import_module(name)
        except ImportError:
            break
        mod = m2
        i += 1
    o = mod
    for p in parts[i:]:
        o = getattr(o, p)
    return o


class Base:
    symbolic = False

    def mod(self, name):
        return resolve('fluids' + ('.' + name if name else ''), self.symbolic)

    def ge(self, a, b, label='', **k):
        return self.le(b, a, label, **k)

    def gt(self, a, b, label='', **k):
        return self.lt(b, a, label, **k)

    def between(self, lo, x, hi, label='', **k):
        self.le(lo, x, label + ' lower', **k)
        self.le(x, hi, label + ' upper', **k)

    def reals(self, pre, n, lo=None, hi=None, **k):
        return [self.real('%s%d' % (pre, i), lo, hi, **k) for i in range(n)]


class Sym(Base):
    symbolic = True

    def __init__(self, eng):
        self.e = eng

    # inputs
    def real(self, name, lo=None, hi=None, log=None, integer=False):
        import math
        l = -math.inf if lo is None else float(lo)
        h = math.inf if hi is None else float(hi)
        self.e.or_.setbox(name, l, h)
        x = sym(name)
        if isinstance(lo, R):
            self.assume(lo <= x)
        if isinstance(hi, R):
            self.assume(x <= hi)
        return x

    def pick(self, name, options):
        options = list(options)
        i = self.e.choose(len(options))
        self.e.choices[name] = i
        return options[i]

    def flag(self, name):
        return self.pick(name, [False, True])

    def func(self, name):
        def f(*a):
            return ir.ufn(name, *a)
        f.__name__ = name
        return f

    def const(self, s):
        return ir.lit(str(s))

    pi = ir.PI

    # code
    def fn(self, qual):
        return resolve(qual, True)

    def call(self, qual, *a, **k):
        f = resolve(qual, True) if isinstance(qual, str) else qual
        try:
            return f(*a, **k)
        except Unsupported:
            raise
        except Exception as ex:
            self.fail('no-exception:%s' % (qual if isinstance(qual, str) else getattr(f, '__name__', '?')),
                      '%s: %s @ %s' % (type(ex).__name__, ex, _where()))
            raise PathEnd()

    def attempt(self, qual, *a, **k):
        f = resolve(qual, True) if isinstance(qual, str) else qual
        try:
            return Outcome(f(*a, **k))
        except Unsupported:
            raise
        except Exception as ex:
            return Outcome(None, ex)

    def stub(self, qual, f):
        """replace callee by its contract for this path"""
        self.e.overrides[qual] = f
        self.e.contracts_used.add(qual)

    def math(self):
        from . import smath
        return smath

    m = property(math)

    # logic
    def assume(self, b):
        self.e.assume(b)

    def assume_note(self, text):
        self.e.assumptions.add(text)

    def root_domain(self, lo, hi):
        """results of open (guess based) root finders are taken in [lo, hi]"""
        self.e.root_domain = (lo, hi)

    def system_domain(self, *boxes):
        """results of newton_system are taken in these intervals"""
        if self.symbolic:
            self.e.system_domain = boxes

    def inline(self, *quals):
        """execute these callees' bodies instead of their contracts"""
        for q in quals:
            self.e.overrides.pop(q, None)

    def _ob(self, label, goal, kind, **kw):
        if not isinstance(goal, B):
            goal = ir.blit(bool(goal))
        e = self.e
        e.add(Obligation(label, tuple(e.pc), goal, kind, dict(e.or_.box), dict(e.choices),
                         fresh=tuple(e.freshnames), **kw))

    def cover(self, label):
        """reachability marker: at least one path must get here"""
        self.e.covers.setdefault(label, []).append((tuple(self.e.pc), dict(self.e.or_.box), dict(self.e.choices), tuple(self.e.freshnames)))

    def eq(self, a, b, label='', rtol=1e-9, atol=0.0, crtol=None, catol=0.0):
        """a equals b up to relative tolerance rtol (0: exactly, as reals)"""
        ca, cb = _num(a), _num(b)
        if ca is None or cb is None:
            self._ob(label, a == b if not isinstance(a, complex) else False, 'eq')
            return
        self._ob(label, ir.cmp_('eq', ca, cb), 'eq', lhs=ca, rhs=cb, rtol=rtol, atol=atol)

    def le(self, a, b, label='', slack=0.0, cslack=None):
        ca, cb = _num(a), _num(b)
        if ca is None or cb is None:
            self._ob(label, bool(a <= b), 'le')
            return
        if slack:
            # a <= b + slack*|b| (b >= 0 assumed by the caller's use)
            cb = cb * (1 + Fraction(repr(slack)))
        self._ob(label, ir.cmp_('le', ca, cb), 'le', lhs=ca, rhs=cb)

    def lt(self, a, b, label='', **k):
        ca, cb = _num(a), _num(b)
        if ca is None or cb is None:
            self._ob(label, bool(a < b), 'lt')
            return
        self._ob(label, ir.cmp_('lt', ca, cb), 'lt', lhs=ca, rhs=cb)

    def check(self, cond, label=''):
        """cond: concrete bool or boolean term"""
        if isinstance(cond, B):
            self._ob(label, cond, 'bool')
        else:
            self._ob(label, ir.blit(bool(cond)), 'bool')

    def fail(self, label, why=''):
        self._ob(label, ir.blit(False), 'unreachable', data=why)

    def deriv(self, t, x):
        return ir.diff(coerce(t), x.val)

    def monotone(self, f, x, direction, label, strict=False):
        """f(x) is non-decreasing (direction=+1) / non-increasing (-1) in the symbol
        x on every path of f (derivative sign); jumps are separate obligations"""
        t = coerce(f(x))
        d = ir.diff(t, x.val)
        if direction < 0:
            d = ir.neg(d)
        self._ob(label, ir.cmp_('lt' if strict else 'le', ir.ZERO, d), 'mono', lhs=ir.ZERO, rhs=d)
        return t

    def lift(self, x):
        return coerce(x)


def _num(x):
    if isinstance(x, (R, int, float, Fraction)) and not isinstance(x, bool):
        return coerce(x)
    if isinstance(x, bool):
        return coerce(int(x))
    return coerce(x)


class Failure:
    def __init__(self, label, why, margin=None):
        self.label, self.why, self.margin = label, why, margin


class Conc(Base):
    """concrete run of a specification on the unmodified package"""
    symbolic = False

    def __init__(self, values, choices, rng=None, tolscale=1.0, ctol=1e-6):
        self.values = dict(values)
        self.choices = dict(choices)
        self.rng = rng or random.Random(0)
        self.fails = []
        self.drawn = {}
        self.picked = {}
        self.tolscale = tolscale
        self.ctol = ctol
        self.nchecks = 0
        self.ranges = {}
        self.trace = []

    def real(self, name, lo=None, hi=None, log=None, integer=False):
        self.ranges[name] = (lo, hi)
        if name in self.values:
            v = float(self.values[name])
            if lo is not None:
                v = max(v, float(lo))
            if hi is not None:
                v = min(v, float(hi))
        else:
            v = sample(self.rng, lo, hi)
        self.drawn[name] = v
        return v

    def pick(self, name, options):
        options = list(options)
        i = self.choices.get(name)
        if i is None or i >= len(options):
            i = self.rng.randrange(len(options))
        self.picked[name] = i
        return options[i]

    def flag(self, name):
        return self.pick(name, [False, True])

    def func(self, name):
        import math
        r = random.Random(str(self.choices.get('fn:' + name, self.rng.random())))
        c = [r.uniform(-1, 1) for _ in range(4)]
        kind = r.randrange(4)

        def f(*a):
            x = sum((i + 1) * v for i, v in enumerate(a)) if a else 0.0
            if kind == 0:
                return c[0] * 3 + c[1] * x
            if kind == 1:
                return c[0] + x * (c[1] + x * (c[2] + x * c[3] * .1))
            if kind == 2:
                return math.tanh(c[0] * x + c[1]) + c[2] * .5
            return math.sin(3 * c[0] * x + c[1]) + c[2]
        f.__name__ = name
        return f

    def const(self, s):
        return float(Fraction(str(s)))

    import math as _math
    pi = _math.pi

    def fn(self, qual):
        return resolve(qual, False)

    def call(self, qual, *a, **k):
        f = resolve(qual, False) if isinstance(qual, str) else qual
        try:
            return f(*a, **k)
        except Exception as ex:
            self.fails.append(Failure('no-exception:%s' % (qual if isinstance(qual, str) else getattr(f, '__name__', '?')),
                                      'raised %s: %s' % (type(ex).__name__, ex), 1e9))
            raise PathEnd()

    def attempt(self, qual, *a, **k):
        f = resolve(qual, False) if isinstance(qual, str) else qual
        try:
            return Outcome(f(*a, **k))
        except Exception as ex:
            return Outcome(None, ex)

    def stub(self, qual, f):
        pass

    @property
    def m(self):
        import math
        return math

    def assume(self, b):
        if not b:
            raise Discard()

    def assume_note(self, text):
        pass

    def root_domain(self, lo, hi):
        pass

    def system_domain(self, *boxes):
        """results of newton_system are taken in these intervals"""
        if self.symbolic:
            self.e.system_domain = boxes

    def inline(self, *quals):
        pass

    def cover(self, label):
        pass

    def eq(self, a, b, label='', rtol=1e-9, atol=0.0, crtol=None, catol=0.0):
        self.nchecks += 1
        try:
            if isinstance(a, complex) or isinstance(b, complex):
                raise TypeError
            if not isinstance(a, _REALTYPES) and not hasattr(a, 'dtype'):
                if not (a == b):
                    self.fails.append(Failure(label, '%r != %r' % (a, b), 1e9))
                return
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            if not (a == b):
                self.fails.append(Failure(label, '%r != %r' % (a, b), 1e9))
            return
        if a != a or b != b:
            self.fails.append(Failure(label, '%r vs %r' % (a, b), 1e9))
            return
        tol = max(self.ctol if crtol is None else crtol, rtol)
        m = max(abs(a), abs(b))
        if abs(a - b) > tol * m + max(atol, catol, 1e-300):
            self.fails.append(Failure(label, '%r != %r' % (a, b), abs(a - b) / (m or 1)))

    def le(self, a, b, label='', slack=0.0, cslack=None):
        self.nchecks += 1
        if isinstance(a, complex) or isinstance(b, complex):
            self.fails.append(Failure(label, 'complex %r %r' % (a, b), 1e9))
            return
        tol = max(slack, 1e-9 if cslack is None else cslack)
        m = max(abs(a), abs(b))
        if not (a <= b + tol * m + 1e-300):
            self.fails.append(Failure(label, 'not %r <= %r' % (a, b), abs(a - b) / (m or 1)))

    def lt(self, a, b, label='', **k):
        # strictness cannot be observed through rounding: replay the weak form
        self.nchecks += 1
        if isinstance(a, complex) or isinstance(b, complex):
            self.fails.append(Failure(label, 'complex %r %r' % (a, b), 1e9))
            return
        m = max(abs(a), abs(b))
        if not (a <= b + 1e-9 * m) or (a == b == 0 and not isinstance(a, bool)) :
            self.fails.append(Failure(label, 'not %r < %r' % (a, b), abs(a - b) / (m or 1)))

    def check(self, cond, label=''):
        self.nchecks += 1
        if not cond:
            self.fails.append(Failure(label, 'condition false', 1e9))

    def fail(self, label, why=''):
        self.fails.append(Failure(label, why or 'reached', 1e9))

    def deriv(self, t, x):
        raise Discard()

    def monotone(self, f, x, direction, label, strict=False):
        self.nchecks += 1
        a = f(x)
        # compare at nearby and distant points of the declared range
        lo = hi = None
        for n, v in self.drawn.items():
            if v is x or v == x:
                lo, hi = self.ranges[n]
                break
        pts = [x * (1 + 1e-3) + 1e-12, x * (1 + 1e-5) + 1e-15]
        if hi is not None and lo is not None:
            pts.append(x + (hi - x) * self.rng.random())
        for y in pts:
            if hi is not None and y > hi:
                continue
            if y <= x:
                continue
            b = f(y)
            d = (b - a) * direction
            if d < -1e-10 * max(abs(a), abs(b)):
                self.fails.append(Failure(label, 'f(%r)=%r, f(%r)=%r' % (x, a, y, b), abs(d) / max(abs(a), abs(b))))
                break
        return a

    def lift(self, x):
        return x


def sample(rng, lo, hi):
    import math
    u = rng.random()
    if lo is None and hi is None:
        return rng.choice([-1, 1]) * 10 ** rng.uniform(-3, 3)
    if lo is None:
        return hi - 10 ** rng.uniform(-3, 3)
    if hi is None:
        return lo + 10 ** rng.uniform(-3, 3)
    lo, hi = float(lo), float(hi)
    if u < 0.04:
        return lo
    if u < 0.08:
        return hi
    if lo > 0 and hi / lo > 20 and u < 0.75:
        return math.exp(rng.uniform(math.log(lo), math.log(hi)))
    return rng.uniform(lo, hi)
