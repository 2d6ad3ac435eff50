"""z3 back end: nonlinear real arithmetic with non-polynomial terms
abstracted by fresh variables constrained by sound axioms."""
import z3
from fractions import Fraction
from . import ir
from .ir import topo, num


class Lower:
    def __init__(self, oracle=None):
        self.v = {}
        self.ax = []
        self.fn = {}
        self.oracle = oracle
        self.syms = {}
        self.n = 0

    def fresh(self, pre):
        self.n += 1
        return z3.Real('%s!%d' % (pre, self.n))

    def q(self, f):
        return z3.RealVal('%d/%d' % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)

    def bound(self, t, x):
        if self.oracle is None:
            return
        lo, hi = self.oracle.rng(t)
        if lo == 5e-324:
            self.ax.append(x > 0)
        elif lo > -1e300:
            self.ax.append(x >= self.q(Fraction(lo)))
        if hi == -5e-324:
            self.ax.append(x < 0)
        elif hi < 1e300:
            self.ax.append(x <= self.q(Fraction(hi)))

    def term(self, t):
        for u in topo([t]):
            if u.id not in self.v:
                self.v[u.id] = self._one(u)
        return self.v[t.id]

    def _one(self, u):
        op = u.op
        v = self.v
        if op == 'num':
            return self.q(u.val)
        if op == 'sym':
            x = z3.Real(u.val)
            self.syms[u.val] = x
            self.bound(u, x)
            return x
        if op == 'add':
            return v[u.args[0].id] + v[u.args[1].id]
        if op == 'mul':
            return v[u.args[0].id] * v[u.args[1].id]
        if op == 'pow':
            b = v[u.args[0].id]
            e = u.args[1]
            if e.op == 'num':
                k = e.val
                if k.denominator == 1 and 0 < k.numerator <= 6:
                    r = b
                    for _ in range(k.numerator - 1):
                        r = r * b
                    return r
                x = self.fresh('p')
                self.bound(u, x)
                if k.denominator == 1 and -6 <= k.numerator < 0:
                    r = b
                    for _ in range(-k.numerator - 1):
                        r = r * b
                    self.ax.append(x * r == 1)
                    return x
                if k.denominator <= 4 and abs(k.numerator) <= 6:
                    self.ax.append(x >= 0)
                    l = x
                    for _ in range(k.denominator - 1):
                        l = l * x
                    r = b
                    for _ in range(abs(k.numerator) - 1):
                        r = r * b
                    if k > 0:
                        self.ax.append(l == r)
                    else:
                        self.ax.append(l * r == 1)
                    return x
                self.ax.append(x >= 0)
                lst = self.fn.setdefault(('pow', k), [])
                for (b2, x2) in lst:
                    if k > 0:
                        self.ax.append(z3.Implies(z3.And(b >= 0, b2 >= 0), (b < b2) == (x < x2)))
                    else:
                        self.ax.append(z3.Implies(z3.And(b > 0, b2 > 0), (b < b2) == (x > x2)))
                    self.ax.append(z3.Implies(b == b2, x == x2))
                self.ax.append(z3.Implies(b == 1, x == 1))
                self.ax.append(z3.Implies(b > 1, x > 1) if k > 0 else z3.Implies(b > 1, x < 1))
                self.ax.append(z3.Implies(z3.And(b < 1, b > 0), x < 1) if k > 0 else z3.Implies(z3.And(b < 1, b > 0), x > 1))
                lst.append((b, x))
                return x
            x = self.fresh('e')
            self.bound(u, x)
            return x
        if op == 'fn':
            if u.val == 'pi':
                x = z3.Real('pi!')
                self.ax.append(x > self.q(Fraction('3.14159265358979')))
                self.ax.append(x < self.q(Fraction('3.14159265358980')))
                return x
            x = self.fresh(u.val)
            self.bound(u, x)
            a = v[u.args[0].id]
            lst = self.fn.setdefault(u.val, [])
            mono = {'exp': 1, 'log': 1, 'atan': 1, 'asin': 1, 'acos': -1, 'sinh': 1, 'tanh': 1, 'erf': 1, 'asinh': 1}.get(u.val)
            for (a2, x2) in lst:
                if mono == 1:
                    self.ax.append((a < a2) == (x < x2))
                elif mono == -1:
                    self.ax.append((a < a2) == (x > x2))
                self.ax.append(z3.Implies(a == a2, x == x2))
            lst.append((a, x))
            if u.val == 'exp':
                self.ax += [x > 0, x >= a + 1]
            elif u.val == 'log':
                self.ax += [x <= a - 1, (a >= 1) == (x >= 0)]
            elif u.val in ('sin', 'cos'):
                self.ax += [x <= 1, x >= -1]
                other = 'cos' if u.val == 'sin' else 'sin'
                for (a2, x2) in self.fn.get(other, []):
                    self.ax.append(z3.Implies(a == a2, x * x + x2 * x2 == 1))
            elif u.val == 'floor':
                n = z3.Int('fl!%d' % self.n)
                self.ax += [x == z3.ToReal(n), x <= a, a < x + 1]
            return x
        if op == 'ufn':
            x = self.fresh(u.val)
            args = [v[a.id] for a in u.args]
            lst = self.fn.setdefault(('ufn', u.val), [])
            for (a2, x2) in lst:
                self.ax.append(z3.Implies(z3.And(*[p == q for p, q in zip(args, a2)]) if args else z3.BoolVal(True), x == x2))
            lst.append((args, x))
            return x
        if op == 'lt':
            return v[u.args[0].id] < v[u.args[1].id]
        if op == 'le':
            return v[u.args[0].id] <= v[u.args[1].id]
        if op == 'eq':
            return v[u.args[0].id] == v[u.args[1].id]
        if op == 'not':
            return z3.Not(v[u.args[0].id])
        if op == 'and':
            return z3.And(*[v[a.id] for a in u.args])
        if op == 'or':
            return z3.Or(*[v[a.id] for a in u.args])
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        raise ir.Unsupported(op)


RL = 400          # z3 resource units granted per millisecond asked for
SCALE = [1.0]      # raised for the second attempt at an obligation
STATS = {'z3_calls': 0, 'z3_time': 0.0}


def check(pc, goal, oracle=None, timeout_ms=2000, want_model=False):
    """is  pc & not goal  unsatisfiable?  returns ('unsat'|'sat'|'unknown', model dict)"""
    import time
    t0 = time.time()
    L = Lower(oracle)
    fs = []
    for c in pc:
        fs.append(L.term(c))
    g = L.term(ir.bnot(goal))
    s = z3.Solver()
    # the resource limit decides (deterministic); the wall clock is only a backstop
    s.set('rlimit', int(timeout_ms * SCALE[0] * RL))
    s.set('timeout', int(timeout_ms * SCALE[0] * 1.3) + 100)
    s.add(*L.ax)
    s.add(*fs)
    s.add(g)
    STATS['z3_calls'] += 1
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS['z3_time'] += time.time() - t0
    model = None
    if r == z3.sat and want_model:
        m = s.model()
        model = {}
        for name, x in L.syms.items():
            val = m.eval(x, model_completion=True)
            try:
                if z3.is_algebraic_value(val):
                    val = val.approx(30)
                model[name] = Fraction(val.numerator_as_long(), val.denominator_as_long())
            except Exception:
                pass
    return str(r), model, 'z3'


