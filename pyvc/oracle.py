"""Quick, sound, incomplete reasoning used during path exploration and by the
normaliser: scalar interval bounds over the declared domains, sharpened by the
comparisons already on the path (matched modulo the canonical form)."""
import math
from fractions import Fraction
from . import ir, nf
from .ir import num

INF = float('inf')
BIG = 300            # canonical polynomials with more terms are judged by interval evaluation only
_na = math.nextafter
TINY = 5e-324


def _dn(x):
    return _na(x, -INF) if x == x else -INF


def _up(x):
    return _na(x, INF) if x == x else INF


def _mulb(a, b):
    if a == 0 or b == 0:
        return 0.0
    if a == TINY or a == -TINY or b == TINY or b == -TINY:
        # TINY stands for 'some positive number', not for its numeric value
        return TINY if (a > 0) == (b > 0) else -TINY
    return a * b


def _mul(a, b):
    p = (_mulb(a[0], b[0]), _mulb(a[0], b[1]), _mulb(a[1], b[0]), _mulb(a[1], b[1]))
    lo, hi = min(p), max(p)
    # exact zeros stay zero; underflow must not create false sign information
    if lo != 0 or not (a[0] == 0 or b[0] == 0 or a[1] == 0 or b[1] == 0):
        lo2 = _dn(lo)
    else:
        lo2 = 0.0
    if hi != 0 or not (a[0] == 0 or b[0] == 0 or a[1] == 0 or b[1] == 0):
        hi2 = _up(hi)
    else:
        hi2 = 0.0
    # sign preservation: positive * positive is positive even after rounding down
    if lo >= 0 and lo2 < 0:
        lo2 = 0.0
    if hi <= 0 and hi2 > 0:
        hi2 = 0.0
    return (lo2, hi2)


def _powf(x, f):
    try:
        return math.pow(x, f)
    except OverflowError:
        return INF
    except (ValueError, ZeroDivisionError):
        return INF


def _w(lo, hi, k=8e-15):
    lo = lo - abs(lo) * k if lo == lo and lo not in (INF, -INF) else lo
    hi = hi + abs(hi) * k if hi == hi and hi not in (INF, -INF) else hi
    return lo, hi


class Oracle:
    """box: {sym: (lo, hi)}; facts: list of boolean terms known to hold"""

    def __init__(self, box=None):
        self.box = dict(box or {})
        self.facts = []
        self.bounds = {}      # canonical key -> [lo, lostrict, hi, histrict] as Fractions/None
        self.zsign = {}       # canonical key (no constant) sign facts
        self.memo = {}
        self.nonzero_ids = set()
        self.ctx = nf.Ctx(self._nn)
        self.ctx.strong = self._nn_box
        self._busy = set()
        self.truth = {}
        self.eqfacts = []
        self._inmod = False
        self.ratios = []      # (exponent dict, coef, strict):  coef * prod x^e  > 1 / >= 1

    def copy(self):
        o = Oracle(self.box)
        for f in self.facts:
            o.add(f)
        return o

    def _nn(self, t):
        return self.rng(t)[0] >= 0

    def _nn_box(self, t, strict=False):
        """t >= 0 (t > 0) on the box of its symbols, decided by the SMT solver"""
        from . import smt
        pc = []
        for n in ir.free_syms([t]):
            lo, hi = self.box.get(n, (-INF, INF))
            x = ir.sym(n)
            for v, c in ((lo, lambda v: ir.cmp_('le', v, x)), (hi, lambda v: ir.cmp_('le', x, v))):
                if abs(v) < 1e300:
                    pc.append(c(ir.num(Fraction(v))))
        return smt.check(pc, ir.cmp_('lt' if strict else 'le', ir.ZERO, t), timeout_ms=300)[0] == 'unsat'

    def setbox(self, name, lo, hi):
        self.box[name] = (lo, hi)
        self.memo.clear()

    # -- canonical linear-ish key of a term:  t = scale * Q + const
    def key(self, t):
        try:
            p = dict(self.ctx.nf(t))
        except (nf.TooBig, ir.Unsupported, OverflowError, ZeroDivisionError):
            return None
        c = p.pop((), Fraction(0))
        if not p:
            return None
        if len(p) == 1:
            (m, k), = p.items()
            if c == 0:
                # drop positive factors: only the sign matters, handled elsewhere
                pass
            return (frozenset([(m, Fraction(1))]), k, c)
        lead = min(p, key=lambda m: tuple(m))
        s = abs(p[lead])
        q = {m: v / s for m, v in p.items()}
        sg = 1
        if q[lead] < 0:
            q = {m: -v for m, v in q.items()}
            sg = -1
        return (frozenset(q.items()), s * sg, c)

    def add(self, b):
        """assert a boolean term as a fact"""
        if b.op == 'and':
            for x in b.args:
                self.add(x)
            return
        self.facts.append(b)
        self.truth[b.id] = True
        self.truth[ir.bnot(b).id] = False
        self.memo.clear()
        self.ctx.signs.clear()
        if b.op in ('lt', 'le', 'eq'):
            d = ir.sub(b.args[0], b.args[1])      # d < 0 / <= 0 / == 0
            self._bound(d, b.op)
            self._ratio(d, b.op)
            # numerator sign facts: d = posfactor * Q
            if b.op == 'eq':
                self.eqfacts.append(b)
                return
            a, c = b.args
            if a.op == 'sym' and c.op == 'num':
                lo, hi = self.box.get(a.val, (-INF, INF))
                v = c.val
                self.box[a.val] = (lo, min(hi, _up(float(v)) if b.op == 'le' or Fraction(float(v)) != v else _dn(float(v))))
            elif c.op == 'sym' and a.op == 'num':
                lo, hi = self.box.get(c.val, (-INF, INF))
                v = a.val
                f = float(v)
                self.box[c.val] = (max(lo, f if b.op == 'le' and Fraction(f) == v else (_up(f) if b.op == 'lt' and Fraction(f) == v else _dn(f))), hi)
        elif b.op == 'not' and b.args[0].op == 'eq':
            self.nonzero_ids.add(ir.sub(b.args[0].args[0], b.args[0].args[1]).id)

    def _bound(self, d, op):
        k = self.key(d)
        if k is None:
            return
        q, s, c = k
        # s*Q + c  op 0
        v = -c / s
        bd = self.bounds.setdefault(q, [None, False, None, False])
        if op == 'eq':
            bd[0] = bd[2] = v
            bd[1] = bd[3] = False
            return
        strict = op == 'lt'
        if s > 0:      # Q <= v
            if bd[2] is None or v < bd[2] or (v == bd[2] and strict):
                bd[2], bd[3] = v, strict
        else:          # Q >= v
            if bd[0] is None or v > bd[0] or (v == bd[0] and strict):
                bd[0], bd[1] = v, strict

    def _ratio(self, d, op):
        """record  c1*m1 < c2*m2  (positive factors) as a monomial ratio fact"""
        try:
            p = self.ctx.nf(d)
        except (nf.TooBig, ir.Unsupported, OverflowError, ZeroDivisionError):
            return
        if len(p) != 2 or op == 'eq':
            return
        (m1, c1), (m2, c2) = p.items()
        if c1 < 0:
            m1, c1, m2, c2 = m2, c2, m1, c1
        if not (c1 > 0 > c2):
            return
        for m in (m1, m2):
            for k, e in m:
                if not self._atompos(k):
                    return
        # c1*m1 - |c2|*m2 < 0  ->  (|c2| m2)/(c1 m1) > 1
        self.ratios.append((self._quot(m2, m1), -c2 / c1, op == 'lt'))

    @staticmethod
    def _quot(a, b):
        d = dict(a)
        for k, e in b:
            v = d.get(k, 0) - e
            if v:
                d[k] = v
            else:
                d.pop(k, None)
        return d

    def polysign(self, p, depth=0):
        """2 (>0) / 1 (>=0) / -1 / -2 / None for a canonical polynomial"""
        if not p:
            return 1
        s = self.psign(p)
        if len(p) > BIG:
            return s
        if s is None and depth < 6:
            s = self._ratio_sign(p, depth)
            if s is None and len(p) > 1:
                c, m, q, pos = self.ctx.content(p)
                sm = self.psign({m: Fraction(1)}) if m else 2
                if sm in (2, -2):
                    s = self._log_sign(q, depth)
                    if s is None and m:
                        s = self.psign(q)
                        if s is None:
                            s = self._ratio_sign(q, depth)
                        if s is None:
                            rr = self._fact_rng(nf.poly_term(q))
                            if rr:
                                s = 2 if rr[0] > 0 else 1 if rr[0] >= 0 else -2 if rr[1] < 0 else -1 if rr[1] <= 0 else None
                    if s is not None and sm < 0:
                        s = -s
            if s is None and len(p) > 1:
                s = self._split_log_sign(p, depth)
            if s is None and depth < 3 and len(p) > 1 and self.eqfacts and not self._inmod:
                self._inmod = True
                try:
                    s = self._sign_modulo(p, depth)
                finally:
                    self._inmod = False
        return s

    def _sign_modulo(self, p, depth):
        """sign of p after adding multiples of assumed equations"""
        eqs = []
        for f in self.eqfacts[:12]:
            try:
                h = self.ctx.nf(ir.sub(f.args[0], f.args[1]))
            except (nf.TooBig, ir.Unsupported, OverflowError):
                continue
            if 1 < len(h) <= 12:
                eqs.append(h)
        for h in eqs:
            for hm, hc in list(h.items())[:6]:
                inv = tuple(sorted((k, -e) for k, e in hm))
                for m, c in list(p.items())[:12]:
                    cf, q = nf._mmul(m, inv)
                    if len(q) > 3:
                        continue
                    try:
                        r = nf.padd(p, nf.pmul({q: cf * c / hc}, h), -1)
                        if len(r) > len(p) + len(h):
                            continue
                        s = self.polysign(r, depth + 1)
                    except nf.TooBig:
                        continue
                    if s is not None:
                        return s
        return None

    def _split_log_sign(self, p, depth):
        """rest + (sum of c*log): both parts of one sign"""
        lg, rest = {}, {}
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and nf.ATOMS[m[0][0]][0][0] == 'log':
                lg[m] = c
            else:
                rest[m] = c
        if not lg or len(lg) > 6:
            return None
        if rest:
            s1 = self.polysign(rest, depth + 1)
            if s1 is None:
                return None
        try:
            d = self.ctx._expand(nf.padd(self.ctx.pexp(lg), nf.pconst(1), -1))
        except (nf.TooBig, OverflowError):
            return None
        s2 = self.polysign(d, depth + 1)
        if s2 is None or not rest:
            return s2
        if s1 > 0 and s2 > 0:
            return max(s1, s2)
        if s1 < 0 and s2 < 0:
            return min(s1, s2)
        return None

    def _log_sign(self, q, depth):
        """sign of  sum +-log(q_i)  = sign(prod+ - prod-)"""
        best = None
        for m, c in q.items():
            for k, e in m:
                key = nf.ATOMS[k][0]
                if key[0] == 'log' and e == 1 and len(key[1]) > 1:
                    if best is not None and best[0] != k:
                        pass
                    best = (k, m, c)
        if best is None or len(q) > 12:
            return None
        k, m, c = best
        cof = tuple((a, e) for a, e in m if a != k)
        sc = self.psign({cof: Fraction(c)}) if cof else (2 if c > 0 else -2)
        if sc not in (2, -2):
            return None
        try:
            inv = {tuple((a, -e) for a, e in cof): 1 / Fraction(c)}
            arg = self.ctx.pexp(nf.pmul(q, inv))
            d = self.ctx.collapse(self.ctx._expand(nf.padd(arg, nf.pconst(1), -1)))
            s = self.polysign(d, depth + 1)
        except (nf.TooBig, OverflowError):
            return None
        if s is None:
            return None
        return s if sc > 0 else -s

    def _ratio_sign(self, p, depth=0):
        """sign of a two-term canonical polynomial from the ratio facts"""
        if len(p) != 2:
            return None
        (m1, c1), (m2, c2) = p.items()
        if c1 < 0:
            m1, c1, m2, c2 = m2, c2, m1, c1
        if not (c1 > 0 > c2):
            return None
        for m in (m1, m2):
            for k, e in m:
                if not self._atompos(k):
                    return None
        q = self._quot(m1, m2)           # p = |c2| m2 * (c*q - 1)
        c = c1 / -c2
        if not q:
            return 2 if c > 1 else (-2 if c < 1 else None)
        for rq, rc, strict in self.ratios:
            if set(rq) != set(q):
                continue
            k0 = next(iter(q))
            t = q[k0] / rq[k0]
            if any(q[k] != t * rq[k] for k in q):
                continue
            # rq-product > 1/rc   =>   q = rq^t
            if rc == 1:
                lim = Fraction(1)
            elif t.denominator == 1:
                lim = Fraction(rc) ** int(-t)
            else:
                continue
            # t > 0: q > lim ; t < 0: q < lim
            if t > 0 and c * lim >= 1:
                return 2 if strict or c * lim > 1 else 1
            if t < 0 and c * lim <= 1:
                return -2 if strict or c * lim < 1 else -1
        if c == 1:
            if any(nf.ATOMS[k][0][0] == 'exp' for k in q) and depth < 4:
                try:
                    lp = self.ctx.collapse(self.ctx.plog({tuple(sorted(q.items())): Fraction(1)}))
                    sg = self.polysign(lp, depth + 1)
                    if sg is not None:
                        return sg
                except (nf.TooBig, ir.Unsupported, OverflowError):
                    pass
            # sign of the logarithm of the quotient, term by term
            tot = []
            for k, e in q.items():
                key = nf.ATOMS[k][0]
                if key[0] == 'exp':
                    sg = self.psign({key[1]: Fraction(e)})
                else:
                    a = self.rng(nf.ATOMS[k][1])
                    sg = 2 if a[0] > 1 else 1 if a[0] >= 1 else -2 if a[1] < 1 else -1 if a[1] <= 1 else None
                    if sg is not None and e < 0:
                        sg = -sg
                tot.append(sg)
            if None not in tot:
                if min(tot) > 0:
                    return max(tot)
                if max(tot) < 0:
                    return min(tot)
        # plain range of the quotient
        lo = hi = 1.0
        r = (1.0, 1.0)
        for k, e in q.items():
            a = self.rng(nf.ATOMS[k][1])
            f = float(e)
            x = (_powf(a[0], f), _powf(a[1], f)) if f > 0 else (0.0 if a[1] == INF else _powf(a[1], f), INF if a[0] <= TINY else _powf(a[0], f))
            r = _mul(r, _w(x[0], x[1], 4e-13))
        cf = float(c)
        if r[0] * cf > 1 + 1e-9:
            return 2
        if r[1] * cf < 1 - 1e-9:
            return -2
        return None

    # -- numeric range of a term (floats, outward)
    def rng(self, t):
        memo = self.memo
        r = memo.get(t.id)
        if r is not None:
            return r
        for u in ir.topo([t]):
            if u.id not in memo:
                memo[u.id] = self._rng1(u)
        return memo[t.id]

    def _fact_rng(self, u):
        if not self.bounds:
            return None
        try:
            n = len(self.ctx.nf(u))
        except (nf.TooBig, ir.Unsupported, OverflowError, ZeroDivisionError):
            return None
        if n > 12 and n > 1 + max(len(b) for b in self.bounds):
            return None
        k = self.key(u)
        if k is None:
            return None
        q, s, c = k
        bd = self.bounds.get(q)
        if bd is None:
            return None
        lo = hi = None
        if bd[0] is not None:
            lo = s * bd[0] + c
        if bd[2] is not None:
            hi = s * bd[2] + c
        ls, hs = bd[1], bd[3]
        if s < 0:
            lo, hi = hi, lo
            ls, hs = hs, ls
        flo = -INF if lo is None else float(lo)
        fhi = INF if hi is None else float(hi)
        if lo is not None:
            if lo == 0:
                flo = 5e-324 if ls else 0.0
            else:
                flo = _dn(flo)
        if hi is not None:
            if hi == 0:
                fhi = -5e-324 if hs else 0.0
            else:
                fhi = _up(fhi)
        return (flo, fhi)

    def _rng1(self, u):
        memo = self.memo
        op = u.op
        if op == 'num':
            f = float(u.val)
            if Fraction(f) == u.val:
                return (f, f)
            return (_dn(f), _up(f))
        if op == 'sym':
            r = self.box.get(u.val, (-INF, INF))
            return r
        if op == 'fn' and not u.args:
            return (3.141592653589793, 3.1415926535897936)
        if op == 'add':
            a, b = memo[u.args[0].id], memo[u.args[1].id]
            lo = a[0] + b[0]
            hi = a[1] + b[1]
            # strictness survives: x>0 + y>=0 > 0
            lo2 = _dn(lo) if lo == lo else -INF
            hi2 = _up(hi) if hi == hi else INF
            if a[0] >= 0 and b[0] >= 0:
                lo2 = max(lo2, a[0], b[0])
            if a[1] <= 0 and b[1] <= 0:
                hi2 = min(hi2, a[1], b[1])
            r = (lo2, hi2)
            if (r[0] < 0 < r[1]) or r[0] == 0 or r[1] == 0:
                f = self._fact_rng(u)
                if f:
                    r = (max(r[0], f[0]), min(r[1], f[1]))
                elif r[0] < 0 < r[1]:
                    r = self._factor_sign(u, r)
            return r
        if op == 'mul':
            a, b = memo[u.args[0].id], memo[u.args[1].id]
            if u.args[0] is u.args[1]:
                m = max(abs(a[0]), abs(a[1]))
                k = 0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1]))
                lo = 0.0 if k == TINY else _dn(k * k)
                return (max(lo, 5e-324 if k > 0 else 0.0), _up(m * m))
            r = _mul(a, b)
            # strict positivity survives underflow
            if a[0] > 0 and b[0] > 0 or a[1] < 0 and b[1] < 0:
                r = (max(r[0], 5e-324), r[1])
            elif a[0] > 0 and b[1] < 0 or a[1] < 0 and b[0] > 0:
                r = (r[0], min(r[1], -5e-324))
            if r[0] < 0 < r[1]:
                f = self._fact_rng(u)
                if f:
                    r = (max(r[0], f[0]), min(r[1], f[1]))
            return r
        if op == 'pow':
            a = memo[u.args[0].id]
            e = u.args[1]
            if e.op == 'num':
                ev = e.val
                if ev.denominator == 1:
                    n = ev.numerator
                    if n < 0:
                        q = self._ipow(a, -n)
                        r = self._inv(q, a)
                    else:
                        r = self._ipow(a, n)
                    if a[0] > 0:
                        r = (max(r[0], 5e-324), r[1])
                    elif a[1] < 0 and n % 2:
                        r = (r[0], min(r[1], -5e-324))
                    return r
                f = float(ev)
                lo, hi = max(a[0], 0.0), max(a[1], 0.0)
                if f > 0:
                    l, h = (TINY if lo == TINY else _powf(lo, f)), _powf(hi, f)
                else:
                    l = _powf(hi, f) if hi != INF else 0.0
                    h = _powf(lo, f) if lo > TINY else INF
                l, h = _w(l, h, 4e-13)
                return (max(l, 5e-324 if a[0] > 0 or f < 0 else 0.0), h)
            b = memo[e.id]
            # x ** y = exp(y log x)
            la = self._log(a)
            p = _mul(b, la)
            l, h = self._exp(p)
            return (max(l, 0.0 if a[0] <= 0 else 5e-324), h)
        if op == 'fn':
            a = memo[u.args[0].id]
            n = u.val
            if n == 'exp':
                l, h = self._exp(a)
                return (max(l, 5e-324), h)
            if n == 'log':
                r = self._log(a)
                if r[0] < 0 < r[1]:
                    d = ir.sub(u.args[0], ir.ONE)
                    f = self._fact_rng(d) or (-INF, INF)
                    if f[0] < 0 < f[1]:
                        f = self._factor_sign(d, f)
                    if f[0] >= 0:
                        r = (5e-324 if f[0] > 0 else 0.0, r[1])
                    elif f[1] <= 0:
                        r = (r[0], -5e-324 if f[1] < 0 else 0.0)
                return r
            if n in ('sin', 'cos'):
                if n == 'sin' and a[0] >= 0 and a[1] <= 3.141592653589793:
                    if a[1] <= 1.5707963267948966:
                        l, h = _w(math.sin(a[0]), math.sin(a[1]))
                        return (max(l, 5e-324 if a[0] > 0 else 0.0), min(h, 1.0))
                    return (5e-324 if a[0] > 0 else 0.0, 1.0)
                if n == 'cos' and a[0] >= 0 and a[1] <= 3.141592653589793:
                    l, h = math.cos(a[1]) - 1e-15, math.cos(a[0]) + 1e-15
                    if a[1] <= 1.5707963267948966:
                        l = max(l, 5e-324)
                    return (max(l, -1.0), min(h, 1.0))
                if n == 'cos' and a[0] >= -1.5707963267948966 and a[1] <= 1.5707963267948966:
                    return (5e-324, 1.0)
                return (-1.0, 1.0)
            if n == 'tan':
                if a[0] > -1.57 and a[1] < 1.57:
                    l, h = _w(math.tan(a[0]), math.tan(a[1]))
                    return (l, h)
                if a[0] >= 0 and a[1] <= 1.5707963267948966:
                    return (5e-324 if a[0] > 0 else 0.0, INF)
                return (-INF, INF)
            if n == 'asin':
                l, h = math.asin(min(1, max(-1, a[0]))), math.asin(min(1, max(-1, a[1])))
                l, h = _w(l, h)
                if a[0] > 0:
                    l = max(l, 5e-324)
                return (l, h)
            if n == 'acos':
                h, l = math.acos(min(1, max(-1, a[0]))), math.acos(min(1, max(-1, a[1])))
                l, h = _w(l, h)
                return (max(l, 5e-324 if a[1] < 1 else 0.0), h)
            if n in ('atan', 'tanh', 'asinh', 'erf'):
                f = getattr(math, n)
                l, h = _w(f(a[0]), f(a[1]))
                if a[0] > 0:
                    l = max(l, 5e-324)
                return (l, h)
            if n == 'sinh':
                try:
                    return _w(math.sinh(a[0]), math.sinh(a[1]))
                except OverflowError:
                    return (-INF, INF)
            if n == 'cosh':
                return (1.0, INF)
            if n == 'acosh':
                return (0.0, INF)
            if n == 'floor':
                return (math.floor(a[0]) if abs(a[0]) != INF else a[0], math.floor(a[1]) if abs(a[1]) != INF else a[1])
            if n.startswith('round'):
                d = 0.5 if n == 'roundNone' else 0.5 * 10.0 ** -int(n[5:])
                return (_dn(a[0] - d), _up(a[1] + d))
            return (-INF, INF)
        return (-INF, INF)

    def _factor_sign(self, u, r):
        """try to decide the sign of a sum by factoring its canonical form"""
        if u.id in self._busy:
            return r
        self._busy.add(u.id)
        try:
            try:
                p = self.ctx.nf(u)
            except (nf.TooBig, ir.Unsupported, OverflowError):
                return r
            if not p:
                return (0.0, 0.0)
            s = self.polysign(p)
            if s == 0 or s is None:
                if 2 <= len(p) <= BIG:
                    c, m, q, pos = self.ctx.content(p)
                    if m and all(self._atompos(k) for k, _ in m):
                        bd = None
                        t = nf.poly_term(q)
                        if t.id != u.id and t.op == 'add':
                            k = self.key(t)
                            if k and k[0] in self.bounds:
                                rr = self._fact_rng(t)
                                if rr and rr[0] > 0:
                                    return (max(r[0], 5e-324), r[1])
                                if rr and rr[0] >= 0:
                                    return (max(r[0], 0.0), r[1])
                                if rr and rr[1] < 0:
                                    return (r[0], min(r[1], -5e-324))
                                if rr and rr[1] <= 0:
                                    return (r[0], min(r[1], 0.0))
                return r
            if s == 2:
                return (max(r[0], 5e-324), r[1])
            if s == 1:
                return (max(r[0], 0.0), r[1])
            if s == -2:
                return (r[0], min(r[1], -5e-324))
            if s == -1:
                return (r[0], min(r[1], 0.0))
            return r
        finally:
            self._busy.discard(u.id)

    def _atompos(self, k):
        t = nf.ATOMS[k][1]
        key = nf.ATOMS[k][0]
        if key[0] in ('p', 'pi', 'exp'):
            return True
        return self.rng(t)[0] > 0

    def psign(self, p):
        """sign of a canonical polynomial whose monomials all have known equal
        sign: 2 (>0), 1 (>=0), -1, -2, or None"""
        allp = alln = True
        strict = False
        for m, c in p.items():
            s = 1 if c > 0 else -1
            st = True
            for k, e in m:
                key = nf.ATOMS[k][0]
                if key[0] in ('p', 'pi', 'exp'):
                    continue
                lo, hi = self.rng(nf.ATOMS[k][1])
                if lo > 0:
                    continue
                if e.denominator == 1 and e.numerator % 2 == 0:
                    if lo <= 0 <= hi:
                        st = False
                    continue
                if lo >= 0:
                    st = False
                    continue
                if hi < 0 and e.denominator == 1:
                    s = -s
                    continue
                if hi <= 0 and e.denominator == 1:
                    s = -s
                    st = False
                    continue
                return None
            if s > 0:
                alln = False
            else:
                allp = False
            strict = strict or st
            if not allp and not alln:
                return None
        if allp:
            return 2 if strict else 1
        return -2 if strict else -1

    @staticmethod
    def _ipow(a, n):
        if n == 0:
            return (1.0, 1.0)
        if a[0] == TINY:
            return (TINY, _w(0.0, _powf(a[1], n))[1])
        if n % 2:
            l, h = _powf(a[0], n) if a[0] >= 0 else -_powf(-a[0], n), _powf(a[1], n) if a[1] >= 0 else -_powf(-a[1], n)
            return _w(l, h)
        m = max(abs(a[0]), abs(a[1]))
        k = 0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1]))
        l, h = _w(_powf(k, n), _powf(m, n))
        return (max(l, 5e-324 if k > 0 else 0.0), h)

    @staticmethod
    def _inv(q, a):
        if q[0] <= 0 <= q[1]:
            if q[0] == 0 and q[1] > 0:
                return (0.0 if q[1] == INF else _dn(1.0 / q[1]), INF)
            if q[1] == 0 and q[0] < 0:
                return (-INF, 0.0 if q[0] == -INF else _up(1.0 / q[0]))
            return (-INF, INF)
        lo = 0.0 if q[1] in (INF,) else 1.0 / q[1]
        hi = 0.0 if q[0] == -INF else 1.0 / q[0]
        if lo > hi:
            return (-INF, INF)
        l, h = _dn(lo), _up(hi)
        if q[0] > 0:
            l = max(l, 0.0)
        if q[1] < 0:
            h = min(h, 0.0)
        return (l, h)

    @staticmethod
    def _exp(a):
        try:
            l = math.exp(a[0])
        except OverflowError:
            l = 1e308
        try:
            h = math.exp(a[1])
        except OverflowError:
            h = INF
        return _w(l, h)

    @staticmethod
    def _log(a):
        l = math.log(a[0]) if a[0] > TINY else -INF
        h = (math.log(a[1]) if a[1] != INF else INF) if a[1] > 0 else -INF
        if a[0] == INF:
            l = 709.0
        l2, h2 = _w(l, h)
        if a[0] >= 1:
            l2 = max(l2, 5e-324 if a[0] > 1 else 0.0)
        else:
            l2 -= 1e-300
        if a[1] <= 1:
            h2 = min(h2, -5e-324 if a[1] < 1 else 0.0)
        return (l2, h2)

    # -- three valued truth of a boolean term
    def decide(self, b):
        t = self.truth.get(b.id)
        if t is not None:
            return t
        op = b.op
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'not':
            r = self.decide(b.args[0])
            return None if r is None else not r
        if op in ('and', 'or'):
            rs = [self.decide(x) for x in b.args]
            if op == 'and':
                if any(r is False for r in rs):
                    return False
                return True if all(r is True for r in rs) else None
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        a, c = b.args
        ra, rc = self.rng(a), self.rng(c)
        if op == 'lt':
            if ra[1] < rc[0]:
                return True
            if ra[0] >= rc[1]:
                return False
        elif op == 'le':
            if ra[1] <= rc[0]:
                return True
            if ra[0] > rc[1]:
                return False
        elif op == 'eq':
            if ra[1] < rc[0] or ra[0] > rc[1]:
                return False
        d = ir.sub(a, c)
        if d.id in self.nonzero_ids and op == 'eq':
            return False
        rd = self.rng(d)
        f = self._fact_rng(d)
        if f:
            rd = (max(rd[0], f[0]), min(rd[1], f[1]))
        if rd[0] < 0 < rd[1] or rd[0] == 0 or rd[1] == 0:
            rd = self._factor_sign(d, rd)
        if op == 'lt':
            if rd[1] < 0:
                return True
            if rd[0] >= 0:
                return False
        elif op == 'le':
            if rd[1] <= 0:
                return True
            if rd[0] > 0:
                return False
        elif op == 'eq':
            if rd[1] < 0 or rd[0] > 0:
                return False
            if rd == (0.0, 0.0):
                return True
        if nf.FACTOR:
            s = self._rational_sign(d)
            if s is not None:
                if op == 'lt':
                    return s < 0
                if op == 'le':
                    return s <= 0
                return s == 0
        return None

    def _rational_sign(self, d):
        """strict sign of d: common denominator, factor the numerator, sign of every factor on the box"""
        if ('rs', d.id) in self.truth:
            return self.truth[('rs', d.id)]
        self.truth[('rs', d.id)] = None     # no recursion into the same question
        r = None
        try:
            p = self.ctx.nf(d)
            if not p:
                r = 0
            elif len(p) <= 120:
                n, den = self.ctx.over(p)
                if not n:
                    r = 0
                elif len(n) <= 200:
                    fl = self.ctx._facs(n)
                    if fl is not None:
                        r = 1 if fl[0] > 0 else -1
                        for f, x in fl[1] + [({((k, Fraction(1)),): Fraction(1)}, x) for k, x in den.items()]:
                            s = self._strict(nf.poly_term(f))
                            if s is None:
                                r = None
                                break
                            if x % 2:
                                r *= s
        except (nf.TooBig, ir.Unsupported, OverflowError):
            r = None
        self.truth[('rs', d.id)] = r
        return r

    def _strict(self, t):
        lo, hi = self.rng(t)
        if lo > 0:
            return 1
        if hi < 0:
            return -1
        if self._nn_box(t, True):
            return 1
        if self._nn_box(ir.neg(t), True):
            return -1
        return None
