"""Canonical form for generalised polynomials.

A polynomial is a dict  {monomial: Fraction};  a monomial is a sorted tuple of
(atom id, Fraction exponent).  Irrational constants are atoms too (primes with
fractional exponents, pi, exp(1)), so all arithmetic is exact.  Rewrites that
need a sign condition ask the oracle `nonneg(term)`; with no answer the rewrite
is not applied.
"""
import math
from fractions import Fraction
from . import ir
from .ir import R, num, ZERO, ONE, PI, topo

ATOMS = []          # id -> (key, term)
_AIDX = {}
MAXTERMS = 4000


class TooBig(Exception):
    pass


def atom(key, term):
    i = _AIDX.get(key)
    if i is None:
        i = len(ATOMS)
        ATOMS.append((key, term))
        _AIDX[key] = i
    return i


def pkey(p):
    return frozenset(p.items())


def pconst(c):
    return {(): Fraction(c)} if c else {}


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


def pscale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


_SMALL = [2, 3, 5, 7]


def _mmul(a, b):
    """multiply monomials; returns (coef, mono) because prime atoms fold"""
    d = dict(a)
    coef = Fraction(1)
    for k, e in b:
        v = d.get(k, 0) + e
        if v:
            d[k] = v
        else:
            d.pop(k, None)
    for k in list(d):
        key = ATOMS[k][0]
        if key[0] == 'p':
            e = d[k]
            n = e.numerator // e.denominator
            if n:
                coef *= Fraction(key[1]) ** n
                e -= n
                if e:
                    d[k] = e
                else:
                    del d[k]
    return coef, tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) * len(q) > MAXTERMS * 4:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            c, m = _mmul(m1, m2)
            v = r.get(m, 0) + c * c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


_FAC = {}
FACTOR = False      # factor the radicands of fractional powers (per specification)


def factor(n):
    """partial factorisation of a positive integer into {base: exp}"""
    if n in _FAC:
        return _FAC[n]
    n0 = n
    out = {}
    p = 2
    while p * p <= n and p < 20000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1 if p == 2 else 2
    if n > 1:
        # perfect powers of the cofactor
        import math
        for k in (3, 2):
            r = round(n ** (1.0 / k)) if n < 10 ** 300 else 0
            for c in (r - 1, r, r + 1):
                if c > 1 and c ** k == n:
                    out[c] = out.get(c, 0) + k
                    n = 1
                    break
            if n == 1:
                break
        if n > 1:
            out[n] = out.get(n, 0) + 1
    _FAC[n0] = out
    return out


def cpow(c, e):
    """positive rational ** rational -> (coef, mono)"""
    if e.denominator == 1:
        return Fraction(c) ** e.numerator, ()
    coef = Fraction(1)
    mono = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in factor(n).items():
            x = e * k * s
            a = atom(('p', p), num(p))
            mono[a] = mono.get(a, 0) + x
    return _mmul(tuple(sorted(mono.items())), ())[0] if False else _fold(mono)


def _fold(mono):
    coef = Fraction(1)
    out = {}
    for k, e in mono.items():
        if not e:
            continue
        key = ATOMS[k][0]
        if key[0] == 'p':
            n = e.numerator // e.denominator
            if n:
                coef *= Fraction(key[1]) ** n
                e -= n
        if e:
            out[k] = e
    return coef, tuple(sorted(out.items()))


def mono_term(m):
    t = ONE
    for k, e in m:
        t = ir.mul(t, ir.pw(ATOMS[k][1], num(e)))
    return t


def poly_term(p):
    t = ZERO
    for m, c in p.items():
        t = ir.add(t, ir.mul(num(c), mono_term(m)))
    return t


class Ctx:
    """normaliser with a sign oracle"""

    def __init__(self, nonneg=None):
        self._nn = nonneg or (lambda t: False)
        self.strong = lambda t: False
        self.memo = {}
        self.cmemo = {}
        self.signs = {}

    def nonneg(self, a):
        """is atom id a known >= 0 ?"""
        v = self.signs.get(a)
        if v is None:
            key, term = ATOMS[a]
            if key[0] in ('p', 'pi', 'exp'):
                v = True
            else:
                v = bool(self._nn(term))
            self.signs[a] = v
        return v

    # ------------------------------------------------------------------
    def nf(self, t):
        memo = self.memo
        if t.id in memo:
            return memo[t.id]
        for u in topo([t]):
            if u.id not in memo:
                memo[u.id] = self._nf1(u)
        return memo[t.id]

    def _nf1(self, u):
        op = u.op
        if op == 'num':
            return pconst(u.val)
        if op == 'sym':
            return {((atom(('sym', u.val), u), Fraction(1)),): Fraction(1)}
        if op == 'add':
            return padd(self.memo[u.args[0].id], self.memo[u.args[1].id])
        if op == 'mul':
            return pmul(self.memo[u.args[0].id], self.memo[u.args[1].id])
        if op == 'pow':
            b = self.memo[u.args[0].id]
            e = self.memo[u.args[1].id]
            if not e:
                return pconst(1)
            if len(e) == 1 and () in e:
                return self.ppow(b, e[()])
            return self.pexp(pmul(e, self.plog(b)))
        if op == 'fn':
            n = u.val
            if n == 'pi':
                return {((atom(('pi',), PI), Fraction(1)),): Fraction(1)}
            a = self.memo[u.args[0].id]
            if n == 'exp':
                return self.pexp(a)
            if n == 'log':
                return self.plog(a)
            return self.pfn(n, a)
        if op == 'ufn':
            key = ('ufn', u.val) + tuple(pkey(self.memo[a.id]) for a in u.args)
            return {((atom(key, u), Fraction(1)),): Fraction(1)}
        raise ir.Unsupported('nf of ' + op)

    def content(self, p):
        """p (>=2 terms) = c * mono * primitive; c>0; deterministic"""
        mins = None
        for m in p:
            d = dict(m)
            if mins is None:
                mins = d
            else:
                for k in set(mins) | set(d):
                    v = min(mins.get(k, 0), d.get(k, 0))
                    mins[k] = v
        mins = {k: e for k, e in mins.items() if e}
        lead = None
        if mins:
            inv = tuple(sorted((k, -e) for k, e in mins.items()))
            q = pmul(p, {inv: Fraction(1)})
        else:
            q = p
        lead = min(q, key=lambda m: (tuple((k, -e) for k, e in m) if m else ((10 ** 9, 0),)))
        c = abs(q[lead])
        q = pscale(q, 1 / c)
        return c, tuple(sorted(mins.items())), q, (q[lead] > 0)

    def sumatom(self, q):
        key = ('sum', pkey(q))
        return atom(key, poly_term(q)) if key not in _AIDX else _AIDX[key]

    def tidy(self, p):
        """expand sum atoms that carry a small positive integer exponent"""
        for _ in range(8):
            hit = None
            for m in p:
                for k, e in m:
                    if ATOMS[k][0][0] == 'sum' and e.denominator == 1 and 1 <= e <= 4:
                        hit = k
                        break
                if hit is not None:
                    break
            if hit is None:
                return self.collapse(p)
            base = dict(ATOMS[hit][0][1])
            out = {}
            for m, c in p.items():
                d = dict(m)
                e = d.get(hit, Fraction(0))
                if e.denominator == 1 and 1 <= e <= 4:
                    d.pop(hit)
                    t = {tuple(sorted(d.items())): c}
                    for _i in range(int(e)):
                        t = pmul(t, base)
                    out = padd(out, t)
                else:
                    out = padd(out, {m: c})
            p = out
        return p

    def _expand(self, p):
        """expand every positive integer power of a sum atom"""
        for _ in range(60):
            ks = [k for m in p for k, e in m if ATOMS[k][0][0] == 'sum' and e >= 1]
            if not ks:
                return p
            k = max(ks)
            base = dict(ATOMS[k][0][1])
            pows = [pconst(1)]
            out = {}
            for m, c in p.items():
                d = dict(m)
                e = d.pop(k, Fraction(0))
                ip = e.numerator // e.denominator
                if e < 1:
                    out = padd(out, {m: c})
                    continue
                if ip > 8:
                    raise TooBig()
                while len(pows) <= ip:
                    pows.append(pmul(pows[-1], base))
                if e - ip:
                    d[k] = e - ip
                out = padd(out, pmul({tuple(sorted(d.items())): c}, pows[ip]))
            p = out
        raise TooBig()

    def _to_monomial(self, p):
        """p as a rational function that collapses to one monomial, or None"""
        den = {}
        for m in p:
            for k, e in m:
                if ATOMS[k][0][0] == 'sum' and e < 0:
                    n = -(e.numerator // e.denominator)
                    den[k] = max(den.get(k, 0), n)
        if not den:
            return None
        dm = {tuple(sorted((k, Fraction(n)) for k, n in den.items())): Fraction(1)}
        try:
            num_ = self._expand(pmul(p, dm))
            if not num_:
                return {}
            d = self._expand(dm)
            if len(num_) != len(d):
                return self._divide(num_, d) if len(num_) > len(d) >= 2 else None
            key = lambda m: tuple((k, -e) for k, e in m) if m else ((10 ** 9, 0),)
            # try every monomial of d as partner of one fixed monomial of num
            m0 = min(num_, key=key)
            for m1 in list(d)[:12]:
                inv = tuple(sorted((k, -e) for k, e in m1))
                c, q = _mmul(m0, inv)
                cand = {q: c * num_[m0] / d[m1]}
                if pmul(cand, d) == num_:
                    return cand
        except TooBig:
            return None
        return None

    def _divide(self, n, d):
        """exact quotient of polynomials in atoms (lex order), or None"""
        ks = sorted({k for q in (n, d) for m in q for k, e in m})
        if any(e.denominator != 1 for q in (n, d) for m in q for k, e in m):
            return None
        lead = lambda q: max(q, key=lambda m: [dict(m).get(k, 0) for k in ks])
        ld = lead(d)
        inv = tuple(sorted((k, -e) for k, e in ld))
        out, r = {}, n
        for _ in range(2 * len(n)):
            if not r:
                return out
            lr = lead(r)
            c, q = _mmul(lr, inv)
            term = {q: c * r[lr] / d[ld]}
            out = padd(out, term)
            r = padd(r, pmul(term, d), -1)
            if len(r) > 3 * len(n):
                return None
        return None

    def collapse(self, p):
        if len(p) < 2 or len(p) > 60:
            return p
        if not any(ATOMS[k][0][0] == 'sum' and e < 0 for m in p for k, e in m):
            return p
        key = pkey(p)
        r = self.cmemo.get(key)
        if r is not None:
            return r
        r = self._to_monomial(p)
        if r is None:
            groups = {}
            for m, c in p.items():
                t = tuple((k, e) for k, e in m if ATOMS[k][0][0] not in ('sym', 'sum'))
                groups.setdefault(t, {})[m] = c
            r = p
            if len(groups) > 1:
                r = {}
                for t, g in groups.items():
                    if len(g) > 1:
                        q = self._to_monomial(g)
                        g = g if q is None else q
                    r = padd(r, g)
        self.cmemo[key] = r
        return r

    def ppow(self, p, e):
        if e == 1:
            return p
        if len(p) > 1:
            p = self.tidy(p)
        if not p:
            return {} if e > 0 else {((atom(('inf',), ZERO), Fraction(1)),): Fraction(1)}
        if len(p) == 1:
            (m, c), = p.items()
            if e.denominator == 1:
                mm = {k: x * e for k, x in m}
                c2, m2 = _fold(mm)
                return {m2: c2 * c ** e.numerator}
            if c > 0:
                # every atom must be >= 0, or its exponent*... stays integral
                good, rest = {}, {}
                for k, x in m:
                    if self.nonneg(k):
                        good[k] = x * e
                    else:
                        rest[k] = x
                cc, cm = cpow(c, e)
                gc, gm = _fold(good)
                c3, m3 = _mmul(cm, gm)
                res = {m3: cc * gc * c3}
                if rest:
                    rm = tuple(sorted(rest.items()))
                    q = {rm: Fraction(1)}
                    # odd/even: (x^2)^(1/2) = |x| kept as an opaque atom
                    if len(rest) == 1 and (list(rest.values())[0]).denominator == 1 and list(rest.values())[0] % 2 == 1 and False:
                        pass
                    a = atom(('sum', pkey(q)), poly_term(q))
                    res = pmul(res, {((a, e),): Fraction(1)})
                return res
            a = atom(('sum', pkey(p)), poly_term(p))
            return {((a, e),): Fraction(1)}
        if e.denominator == 1 and 0 < e <= 3 and len(p) <= 40:
            r = p
            for _ in range(int(e) - 1):
                r = pmul(r, p)
            return r
        c, m, q, pos = self.content(p)
        if e.denominator == 1 and FACTOR and len(q) <= 40:
            try:
                fl = self._facs(q)
            except TooBig:
                fl = None
            if fl is not None and fl[1]:
                k = fl[0] * c
                res = {tuple((a, x * e) for a, x in m): Fraction(1)}
                for f, x in fl[1]:
                    if len(f) > 1:
                        fc, fm, fq, fpos = self.content(f)
                        k *= fc ** x * (1 if fpos or x % 2 == 0 else -1)
                        fq = fq if fpos else pscale(fq, -1)
                        neg_ = pscale(fq, -1)
                        if not self.nonneg2(self.sumatom(fq)) and self.nonneg2(self.sumatom(neg_)):
                            fq = neg_
                            k *= -1 if x % 2 else 1
                        f = pmul({((self.sumatom(fq), Fraction(1)),): Fraction(1)}, {fm: Fraction(1)})
                    (fm, fc), = f.items()
                    k *= fc ** x
                    res = pmul(res, {tuple((a, y * x * e) for a, y in fm): Fraction(1)})
                return pscale(res, k ** e.numerator)
        if e.denominator == 1:
            if not pos:
                q = pscale(q, -1)
                c = -c
            a = self.sumatom(q)
            mm = {k: x * e for k, x in m}
            c2, m2 = _fold(mm)
            return pmul({m2: c2 * c ** e.numerator}, {((a, e),): Fraction(1)})
        if FACTOR and len(p) <= 80:
            r = self._factored(p, e)
            if r is not None:
                return r
        # fractional power of a sum: pull out non-negative content only
        pull = {k: x for k, x in m if self.nonneg(k)}
        keep = tuple((k, x) for k, x in m if k not in pull)
        if keep:
            q = pmul(q, {keep: Fraction(1)})
        a = self.sumatom(q)
        cc, cm = cpow(c, e)
        gc, gm = _fold({k: x * e for k, x in pull.items()})
        c3, m3 = _mmul(cm, gm)
        return pmul({m3: cc * gc * c3}, {((a, e),): Fraction(1)})

    def _factored(self, p, e):
        """p**e with p put over a common denominator and factored (checked by multiplying out);
        factors of known sign are pulled out"""
        try:
            n, den = self.over(p)
            if len(n) > 200:
                return None
            facs = self._facs(n)
        except TooBig:
            return None
        if facs is None or (len(facs[1]) < 2 and not den):
            return None
        c, fl = facs
        fl = fl + [(dict(ATOMS[k][0][1]), -x) for k, x in den.items()]
        sign = 1 if c > 0 else -1
        res, rest = pconst(1), pconst(1)
        c = abs(c)
        for f, x in fl:
            if len(f) > 1:
                fc, fm, q, pos = self.content(f)
                c *= fc ** x
                if fm:
                    return None
                if not pos:
                    q = pscale(q, -1)
                    sign *= -1 if x % 2 else 1
                if self.nonneg2(self.sumatom(q)):
                    res = pmul(res, self.ppow({((self.sumatom(q), Fraction(1)),): Fraction(1)}, x * e))
                elif self.nonneg2(self.sumatom(pscale(q, -1))):
                    res = pmul(res, self.ppow({((self.sumatom(pscale(q, -1)), Fraction(1)),): Fraction(1)}, x * e))
                    sign *= -1 if x % 2 else 1
                else:
                    rest = pmul(rest, {((self.sumatom(q), Fraction(x)),): Fraction(1)})
            else:
                (m, fc), = f.items()
                c *= fc ** x
                for k, y in m:
                    if self.nonneg(k):
                        res = pmul(res, {((k, y * x * e),): Fraction(1)})
                    else:
                        rest = pmul(rest, {((k, y * x),): Fraction(1)})
        if rest == pconst(1):
            if sign < 0:
                return None
        else:
            rest = pscale(rest, sign)
            if all(y > 0 and y.denominator == 1 for m in rest for k, y in m):
                rest = self._expand(rest)
            a = atom(('sum', pkey(rest)), poly_term(rest))
            res = pmul(res, {((a, e),): Fraction(1)})
        cc, cm = cpow(c, e)
        return pmul(res, {cm: cc})

    def over(self, p):
        """(numerator, {sum atom: power of the denominator})"""
        den = {}
        for m in p:
            for k, x in m:
                if ATOMS[k][0][0] == 'sum' and x < 0:
                    den[k] = max(den.get(k, 0), -(x.numerator // x.denominator))
        dm = {tuple(sorted((k, Fraction(n)) for k, n in den.items())): Fraction(1)}
        return self._expand(pmul(p, dm)) if den else p, den

    def canon(self, p):
        """a rational function in factored form (value-preserving); TooBig or None when out of reach"""
        n, d = p, pconst(1)
        for _ in range(12):
            a, den = self.over(n)
            b, den2 = self.over(d)
            mono = lambda x: {tuple(sorted((k, Fraction(v)) for k, v in x.items())): Fraction(1)}
            n, d = self._expand(pmul(a, mono(den2))), self._expand(pmul(b, mono(den)))
            if not any(ATOMS[k][0][0] == 'sum' and (x >= 1 or x < 0) for q in (n, d) for m in q for k, x in m):
                break
        else:
            return None
        if len(n) > 300 or len(d) > 300:
            return None
        fn, fd = [(x[()], []) if list(x) == [()] else self._facs(x) for x in (n, d)]
        if fn is None or fd is None:
            return None
        res = pconst(fn[0] / fd[0])
        for fl, sg in ((fn[1], 1), (fd[1], -1)):
            for f, x in fl:
                if len(f) > 1:
                    c, m, q, pos = self.content(f)
                    if not pos:
                        q, c = pscale(q, -1), -c
                    if not self.nonneg2(self.sumatom(q)) and self.nonneg2(self.sumatom(pscale(q, -1))):
                        q, c = pscale(q, -1), -c
                    f = {tuple(sorted(dict(m).items())): Fraction(1)}
                    f = pmul(f, {((self.sumatom(q), Fraction(1)),): Fraction(1)})
                else:
                    (m, c), = f.items()
                    f = {m: Fraction(1)}
                (m, _), = f.items()
                res = pmul(res, {tuple((k, y * x * sg) for k, y in m): c ** (x * sg)})
        return res

    def nonneg2(self, a):
        if not self.nonneg(a) and self.strong(ATOMS[a][1]):
            self.signs[a] = True
        return self.signs[a]

    def _facs(self, n):
        """(constant, [(polynomial, multiplicity)]) of a polynomial in atoms, or None"""
        import sympy
        ks = sorted({k for m in n for k, x in m})
        sc = {k: 1 for k in ks}
        lo = {k: Fraction(0) for k in ks}
        for m in n:
            d = dict(m)
            for k in ks:
                x = d.get(k, Fraction(0))
                sc[k] = sc[k] * x.denominator // math.gcd(sc[k], x.denominator)
                lo[k] = min(lo[k], x)
        xs = {k: sympy.Symbol('x%d' % i) for i, k in enumerate(ks)}
        if not ks or any(sc[k] > 4 for k in ks):
            return None
        D = {}
        for m, c in n.items():
            d = dict(m)
            key = tuple(int((d.get(k, Fraction(0)) - lo[k]) * sc[k]) for k in ks)
            if max(key) > 24:
                return None
            D[key] = sympy.Rational(c.numerator, c.denominator)
        c, fl = sympy.Poly(D, *[xs[k] for k in ks], domain='QQ').factor_list()
        out = []
        chk = pconst(Fraction(int(c.p), int(c.q)))
        for f, x in fl:
            q = {}
            for key, v in f.terms():
                q[tuple((k, Fraction(y, sc[k])) for k, y in zip(ks, key) if y)] = Fraction(int(v.p), int(v.q))
            out.append((q, int(x)))
            for _ in range(int(x)):
                chk = pmul(chk, q)
        for k in ks:
            if lo[k]:
                q = {((k, Fraction(1)),): Fraction(1)}
                out.append(({((k, Fraction(1, lo[k].denominator)),): Fraction(1)}, int(lo[k].numerator)))
                chk = pmul(chk, {((k, lo[k]),): Fraction(1)})
        return (Fraction(int(c.p), int(c.q)), out) if padd(chk, n, -1) == {} else None

    def pexp(self, p):
        res = pconst(1)
        p = self.tidy(p)
        if len(p) == 1:
            p = self.tidy(p)
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0][0] == 'log':
                base = ATOMS[m[0][0]][0][1]      # poly key of the argument
                res = pmul(res, self.ppow(dict(base), c))
            else:
                a = atom(('exp', m), ir.fn('exp', mono_term(m)))
                res = pmul(res, {((a, c),): Fraction(1)})
        return res

    def _logatom(self, q):
        a = atom(('log', pkey(q)), ir.fn('log', poly_term(q)))
        return {((a, Fraction(1)),): Fraction(1)}

    def _logc(self, c):
        r = {}
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            for p, k in factor(n).items():
                if p == 2:
                    # basis log(10), log(5), ...: keeps log(10) a single invertible atom
                    r = padd(r, pscale(self._logatom(pconst(10)), k * s))
                    r = padd(r, pscale(self._logatom(pconst(5)), -k * s))
                else:
                    r = padd(r, pscale(self._logatom(pconst(p)), k * s))
        return r

    def plog(self, p):
        if len(p) > 1:
            p = self.tidy(p)
        if FACTOR and any(ATOMS[k][0][0] == 'sum' for m in p for k, x in m):
            try:
                p = self.canon(p) or p
            except TooBig:
                pass
        if not p:
            return {((atom(('loginf',), ZERO), Fraction(1)),): Fraction(1)}
        if len(p) == 1:
            (m, c), = p.items()
            q = {(): Fraction(1)}
        else:
            c, m, q, pos = self.content(p)
        if c < 0:
            return self._logatom(p)
        r = {}
        rest = {}
        for k, x in m:
            key = ATOMS[k][0]
            if key[0] == 'exp':
                r = padd(r, {key[1]: x})
            elif self.nonneg(k):
                if key[0] == 'sum':
                    r = padd(r, pscale(self._logatom(dict(key[1])), x))
                else:
                    r = padd(r, pscale(self._logatom({((k, Fraction(1)),): Fraction(1)}), x))
            else:
                rest[k] = x
        if c != 1:
            r = padd(r, self._logc(Fraction(c)))
        if rest:
            q = pmul(q, {tuple(sorted(rest.items())): Fraction(1)})
        if q != {(): Fraction(1)}:
            r = padd(r, self._logatom(q))
        return r

    def _neglead(self, a):
        if len(a) == 1:
            return next(iter(a.values())) < 0
        if not a:
            return False
        return not self.content(a)[3]

    def _opaque(self, n, a):
        k = atom(('fn', n, pkey(a)), ir.fn(n, poly_term(a)))
        return {((k, Fraction(1)),): Fraction(1)}

    def _invtrig(self, n, a):
        """atan(tan x), asin(sin x), acos(cos x) -> x inside the principal branch"""
        (m, c), = a.items()
        if abs(c) != 1:
            return None
        if n == 'atan':
            if len(m) != 2 or sorted(e for _, e in m) != [-1, 1]:
                return None
            (s, _), (k, _) = sorted(m, key=lambda t: -t[1])
            ks, kc = ATOMS[s][0], ATOMS[k][0]
            if ks[:2] != ('fn', 'sin') or kc[:2] != ('fn', 'cos') or ks[2] != kc[2]:
                return None
        else:
            if len(m) != 1 or m[0][1] != 1 or (n == 'acos' and c != 1):
                return None
            ks = ATOMS[m[0][0]][0]
            if ks[:2] != ('fn', 'sin' if n == 'asin' else 'cos'):
                return None
        x = dict(ks[2])
        t = poly_term(x)
        h = ir.mul(num(Fraction(1, 2)), PI)
        lo, hi = (ir.neg(h), h) if n != 'acos' else (ZERO, PI)
        try:
            if self._nn(ir.sub(hi, t)) and self._nn(ir.sub(t, lo)):
                return pscale(x, c)
        except (TooBig, ir.Unsupported, OverflowError):
            pass
        return None

    def _rational_angle(self, n, a):
        """asin(a), acos(a) as an arctangent where sqrt(1 - a^2) is rational and both are bounded away from 0"""
        try:
            r = self.ppow(padd(pconst(1), pmul(a, a), -1), Fraction(1, 2))
            if len(r) != 1 or any(e.denominator != 1 for e in dict(next(iter(r))).values()):
                return None
            eps = num(Fraction(-1, 10 ** 6))
            if not self.strong(ir.add(poly_term(r), eps)):
                return None
            pos = self.strong(ir.add(poly_term(a), eps))
            if not pos and self.strong(ir.add(ir.neg(poly_term(a)), eps)):
                x = self._rational_angle(n, pscale(a, -1))
                if x is None or n == 'asin':
                    return x and pscale(x, -1)
                return padd({((atom(('pi',), PI), Fraction(1)),): Fraction(1)}, x, -1)
            if n == 'acos' and not pos:
                return None
            q = self.canon(pmul(a, self.ppow(r, Fraction(-1))))
            if q is None:
                return None
            inv = self.ppow(q, Fraction(-1))
            flip = pos and sorted(inv.items()) < sorted(q.items())          # atan(1/q) = pi/2 - atan(q)
            x = self.pfn('atan', inv if flip else q)
            if flip != (n == 'acos'):
                x = padd({((atom(('pi',), PI), Fraction(1)),): Fraction(1, 2)}, x, -1)
            return x
        except (TooBig, ir.Unsupported, OverflowError):
            return None

    def pfn(self, n, a):
        a = self.tidy(a)
        if FACTOR and n in ('asin', 'acos', 'atan') and (len(a) > 1 or any(ATOMS[k][0][0] == 'sum' for m in a for k, x in m)):
            try:
                a = self.canon(a) or a
            except TooBig:
                pass
        if len(a) == 1:
            (m, c), = a.items()
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                key = ATOMS[m[0][0]][0]
                if key[0] == 'fn':
                    x = dict(key[2])
                    inner = key[1]
                    one_m = padd(pconst(1), pmul(x, x), -1)
                    if n == 'cos' and inner == 'acos':
                        return x
                    if n == 'sin' and inner == 'asin':
                        return pscale(x, c)
                    if n == 'sin' and inner == 'acos':
                        return pscale(self.ppow(one_m, Fraction(1, 2)), c)
                    if n == 'cos' and inner == 'asin':
                        return self.ppow(one_m, Fraction(1, 2))
                    if n == 'tan' and inner == 'atan':
                        return pscale(x, c)
                    if n == 'tan' and inner == 'acos':
                        return pscale(pmul(self.ppow(one_m, Fraction(1, 2)), self.ppow(x, Fraction(-1))), c)
                    if n == 'tan' and inner == 'asin':
                        return pscale(pmul(self.ppow(one_m, Fraction(-1, 2)), x), c)
                    if n in ('sin', 'cos') and inner == 'atan':
                        h = self.ppow(padd(pconst(1), pmul(x, x)), Fraction(-1, 2))
                        return pscale(pmul(x, h), c) if n == 'sin' else h
        if n in ('atan', 'asin', 'acos') and len(a) == 1:
            x = self._invtrig(n, a)
            if x is not None:
                return x
        if n == 'acos' and not a:
            return {((atom(('pi',), PI), Fraction(1)),): Fraction(1, 2)}
        if FACTOR and n in ('asin', 'acos') and a and not (len(a) == 1 and () in a):
            x = self._rational_angle(n, a)
            if x is not None:
                return x
        if FACTOR and n == 'atan' and len(a) == 1 and () not in a:
            inv = self.ppow(a, Fraction(-1))
            if sorted(inv.items()) < sorted(a.items()):             # atan(1/q) = pi/2 - atan(q)
                half = {((atom(('pi',), PI), Fraction(1)),): Fraction(1, 2)}
                eps = num(Fraction(-1, 10 ** 6))
                if self.strong(ir.add(poly_term(a), eps)):
                    return padd(half, self.pfn('atan', inv), -1)
                if self.strong(ir.add(ir.neg(poly_term(a)), eps)):
                    return pscale(padd(half, self.pfn('atan', inv)), -1)
        if n == 'tan':
            return pmul(self.pfn('sin', a), self.ppow(self.pfn('cos', a), Fraction(-1)))
        if n in ('sin', 'asin', 'atan', 'erf', 'sinh', 'tanh', 'asinh') and self._neglead(a):
            return pscale(self.pfn(n, pscale(a, -1)), -1)
        if n in ('cos', 'cosh') and self._neglead(a):
            return self.pfn(n, pscale(a, -1))
        if n == 'acos' and self._neglead(a):
            pi = {((atom(('pi',), PI), Fraction(1)),): Fraction(1)}
            return padd(pi, self.pfn('acos', pscale(a, -1)), -1)
        if FACTOR and n in ('sin', 'cos') and len(a) > 1:
            # shift by quarter turns
            pm = ((atom(('pi',), PI), Fraction(1)),)
            if pm in a and (a[pm] * 2).denominator == 1:
                rest = {m: c for m, c in a.items() if m != pm}
                k = (int(a[pm] * 2) + (n == 'cos')) % 4
                return pscale(self.pfn(('sin', 'cos')[k % 2], rest), -1 if k >= 2 else 1)
        if n in ('sin', 'cos') and len(a) == 1:
            (m, c), = a.items()
            # quarter multiples of pi
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == ('pi',) and (c * 2).denominator == 1:
                k = int(c * 2) % 4
                v = (0, 1, 0, -1)[k] if n == 'sin' else (1, 0, -1, 0)[k]
                return pconst(v)
        if n == 'sin' and not a:
            return {}
        if n == 'cos' and not a:
            return pconst(1)
        if n == 'sinh':
            e = self.pexp(a)
            return pscale(padd(e, self.pexp(pscale(a, -1)), -1), Fraction(1, 2))
        if n == 'cosh':
            e = self.pexp(a)
            return pscale(padd(e, self.pexp(pscale(a, -1))), Fraction(1, 2))
        return self._opaque(n, a)

    # ------------------------------------------------------------------
    def clear(self, p):
        """multiply by powers of sum atoms so that only exponents in [0,1)
        remain and expand; preserves zero-ness where the atoms are nonzero"""
        for _ in range(12):
            if not p:
                return p
            # sin^2 -> 1 - cos^2
            p2 = self._pyth(p)
            p = p2
            if not p:
                return p
            sums = {}
            for m in p:
                d = dict(m)
                for k, e in m:
                    if ATOMS[k][0][0] == 'sum':
                        sums.setdefault(k, None)
            if not sums:
                return p
            # process the sum atom created last (outermost)
            k = max(sums)
            exps = [dict(m).get(k, Fraction(0)) for m in p]
            fracs = {}
            for e in exps:
                f = e - (e.numerator // e.denominator)
                fracs.setdefault(f, []).append(e)
            lo = min(exps)
            n = lo.numerator // lo.denominator
            key = ATOMS[k][0]
            base = dict(key[1])
            out = {}
            mx = max(e.numerator // e.denominator for e in exps) - n
            if mx > 12:
                raise TooBig()
            pows = [pconst(1)]
            for _i in range(mx):
                pows.append(pmul(pows[-1], base))
            progress = False
            for m, c in p.items():
                d = dict(m)
                e = d.pop(k, Fraction(0)) - n
                ip = e.numerator // e.denominator
                fp = e - ip
                if fp:
                    d[k] = fp
                t = {tuple(sorted(d.items())): c}
                if ip:
                    t = pmul(t, pows[ip])
                    progress = True
                out = padd(out, t)
            if n:
                progress = True
            p = out
            if not progress:
                # remaining fractional exponents of k: treat as opaque; mark done
                # by renaming is unnecessary: try the next atoms
                done = True
                for kk in sorted(sums, reverse=True):
                    ex = [dict(m).get(kk, Fraction(0)) for m in p]
                    if any(e < 0 or e >= 1 for e in ex):
                        done = False
                if done:
                    return p
                # clear the others
                for kk in sorted(sums, reverse=True):
                    ex = [dict(m).get(kk, Fraction(0)) for m in p]
                    if any(e < 0 or e >= 1 for e in ex):
                        p = self._clear1(p, kk)
        return p

    def _clear1(self, p, k):
        exps = [dict(m).get(k, Fraction(0)) for m in p]
        lo = min(exps)
        n = lo.numerator // lo.denominator
        base = dict(ATOMS[k][0][1])
        mx = max(e.numerator // e.denominator for e in exps) - n
        if mx > 12:
            raise TooBig()
        pows = [pconst(1)]
        for _i in range(mx):
            pows.append(pmul(pows[-1], base))
        out = {}
        for m, c in p.items():
            d = dict(m)
            e = d.pop(k, Fraction(0)) - n
            ip = e.numerator // e.denominator
            fp = e - ip
            if fp:
                d[k] = fp
            out = padd(out, pmul({tuple(sorted(d.items())): c}, pows[ip]))
        return out

    def _pyth(self, p):
        trig = set()
        for m in p:
            for k, e in m:
                key = ATOMS[k][0]
                if key[0] == 'fn' and key[1] == 'sin' and e >= 2:
                    trig.add(k)
        for k in trig:
            key = ATOMS[k][0]
            cosp = self._opaque('cos', dict(key[2]))
            one_m = padd(pconst(1), pmul(cosp, cosp), -1)
            out = {}
            for m, c in p.items():
                d = dict(m)
                e = d.get(k, Fraction(0))
                n = e.numerator // (2 * e.denominator)
                if n > 0:
                    e -= 2 * n
                    d.pop(k)
                    if e:
                        d[k] = e
                    t = {tuple(sorted(d.items())): c}
                    for _ in range(n):
                        t = pmul(t, one_m)
                    out = padd(out, t)
                else:
                    out = padd(out, {m: c})
            p = out
        return p

    def is_zero(self, t):
        return not self.clear(self.nf(t))


_DEF = None


def is_zero(t, ctx=None):
    global _DEF
    if ctx is None:
        if _DEF is None:
            _DEF = Ctx()
        ctx = _DEF
    return ctx.is_zero(t)


def is_const_key(key):
    if key[0] in ('p', 'pi'):
        return True
    if key[0] == 'exp':
        return all(is_const_key(ATOMS[k][0]) for k, _ in key[1])
    if key[0] in ('log', 'sum'):
        return all(is_const_key(ATOMS[k][0]) for m, _ in key[1] for k, _e in m)
    if key[0] == 'fn':
        return all(is_const_key(ATOMS[k][0]) for m, _ in key[2] for k, _e in m)
    return False


def numeric_groups(p, dps=50):
    """collapse constant atoms: {nonconst mono: mpf coefficient}"""
    import mpmath
    from .ival import closed_mp
    out = {}
    with mpmath.workdps(dps):
        for m, c in p.items():
            v = mpmath.mpf(c.numerator) / c.denominator
            rest = []
            for k, e in m:
                if is_const_key(ATOMS[k][0]):
                    b = closed_mp(ATOMS[k][1], dps)
                    v *= b ** (mpmath.mpf(e.numerator) / e.denominator)
                else:
                    rest.append((k, e))
            out.setdefault(tuple(rest), []).append(v)
    return out
