"""Structure preserving term reduction: flattens sums and products, cancels equal
terms and factors, inverts log/exp pairs.  Valid wherever the original term is
defined (definedness is a separate obligation).  Unlike the canonical form it never
multiplies sums out, so that interval evaluation keeps the shape of the code."""
from fractions import Fraction
from . import ir
from .ir import num

MEMO = {}


def _lin_of(t):
    """t -> (const, {id: [coef, term]}) for a reduced term"""
    c = Fraction(0)
    d = {}
    stack = [(Fraction(1), t)]
    while stack:
        k, u = stack.pop()
        if u.op == 'num':
            c += k * u.val
        elif u.op == 'add':
            for a in u.args:
                stack.append((k, a))
        else:
            q = Fraction(1)
            if u.op == 'mul':
                q, u = _coef(u)
                if u is None:
                    c += k * q
                    continue
                if u.op == 'add':
                    stack.append((k * q, u))
                    continue
            e = d.get(u.id)
            if e is None:
                d[u.id] = [k * q, u]
            else:
                e[0] += k * q
    return c, d


def _coef(u):
    """numeric factor of a product"""
    q = Fraction(1)
    rest = []
    stack = [u]
    while stack:
        x = stack.pop()
        if x.op == 'mul':
            stack.extend(reversed(x.args))
        elif x.op == 'num':
            q *= x.val
        else:
            rest.append(x)
    if not rest:
        return q, None
    r = rest[0]
    for x in rest[1:]:
        r = ir.mul(r, x)
    return q, r


def _split_closed(t):
    if t.op != 'mul':
        return (t, None) if ir.is_closed(t) else (None, t)
    cl = op = None
    stack = [t]
    while stack:
        x = stack.pop()
        if x.op == 'mul':
            stack.extend(reversed(x.args))
        elif ir.is_closed(x):
            cl = x if cl is None else ir.mul(cl, x)
        else:
            op = x if op is None else ir.mul(op, x)
    return cl, op


def _build_lin(c, d):
    ts = [e for e in d.values() if e[0] != 0]
    ts.sort(key=lambda e: e[1].id)
    if sum(1 for e in ts if e[1].op == 'mul') and len(ts) > 1:
        # terms that differ by a closed (non rational) factor only: one term with a closed coefficient
        groups = {}
        for q, t in ts:
            cl, op = _split_closed(t)
            groups.setdefault(op.id if op is not None else None, []).append((q, t, cl, op))
        if any(len(g) > 1 and k is not None for k, g in groups.items()):
            ts = []
            for k, g in groups.items():
                if len(g) == 1 or k is None:
                    ts += [[q, t] for q, t, _, _ in g]
                    continue
                co = None
                for q, t, cl, op in g:
                    x = num(q) if cl is None else ir.mul(num(q), cl)
                    co = x if co is None else ir.add(co, x)
                ts.append([Fraction(1), ir.mul(co, g[0][3])])
            ts.sort(key=lambda e: e[1].id)
    out = num(c) if c else None
    for q, t in ts:
        m = t if q == 1 else ir.mul(num(q), t)
        out = m if out is None else ir.add(out, m)
    return num(0) if out is None else out


def _factors(t):
    """reduced t -> coef, [(base, exponent Fraction)], exp argument term or None"""
    q = Fraction(1)
    fs = {}
    ex = None
    stack = [(t, Fraction(1))]
    while stack:
        u, k = stack.pop()
        if u.op == 'mul':
            for a in u.args:
                stack.append((a, k))
            continue
        if u.op == 'num' and k.denominator == 1 and u.val != 0:
            q *= u.val ** int(k)
            continue
        if u.op == 'pow' and u.args[1].op == 'num' and (k.denominator == 1):
            b, e = u.args[0], u.args[1].val * k
            if b.op in ('mul', 'num') and e.denominator == 1:
                stack.append((b, e))
                continue
            u, k = b, e
        if u.op == 'fn' and u.val == 'exp':
            a = u.args[0] if k == 1 else ir.mul(num(k), u.args[0])
            ex = a if ex is None else ir.add(ex, a)
            continue
        if u.op == 'fn' and u.val == 'sqrt':
            u, k = u.args[0], k / 2
        f = fs.get(u.id)
        if f is None:
            fs[u.id] = [u, k]
        else:
            f[1] += k
    return q, [f for f in fs.values() if f[1] != 0], ex


def red(t):
    for u in ir.topo([t]):
        if u.id in MEMO:
            continue
        MEMO[u.id] = _red1(u)
    return MEMO[t.id]


def _red1(u):
    if not u.args:
        return u
    na = tuple(MEMO[a.id] for a in u.args)
    if u.op == 'add':
        return _build_lin(*_lin_of(ir.add(*na)))
    if u.op in ('mul', 'pow') and isinstance(u, ir.R):
        v = ir.rebuild(u, na)
        if v.op not in ('mul', 'pow'):
            return v
        q, fs, ex = _factors(v)
        if ex is not None:
            ex = _build_lin(*_lin_of(ex))
            if ex.op == 'fn' and ex.val == 'log':
                fs.append([ex.args[0], Fraction(1)])
                ex = None
            elif ex.op == 'num' and ex.val == 0:
                ex = None
        r = _distribute(q, fs, ex)
        if r is not None:
            return r
        opn = [f for f in fs if not ir.is_closed(f[0])]
        if len(opn) == 1 and len(fs) > 1 and opn[0][1] == 1 and opn[0][0].op == 'add' and (ex is None or ir.is_closed(ex)):
            co = num(q)
            for b, e in fs:
                if b is not opn[0][0]:
                    co = ir.mul(co, ir.pw(b, num(e)))
            if ex is not None:
                co = ir.mul(co, ir.fn('exp', ex))
            c, d = _lin_of(opn[0][0])
            r = red(ir.mul(co, num(c))) if c else None
            for k, t in d.values():
                x = red(ir.mul(num(k), ir.mul(co, t)))
                r = x if r is None else ir.add(r, x)
            return _build_lin(*_lin_of(r))
        fs.sort(key=lambda f: f[0].id)
        out = None
        for b, e in fs:
            p = b if e == 1 else ir.pw(b, num(e))
            out = p if out is None else ir.mul(out, p)
        if ex is not None:
            p = ir.fn('exp', ex)
            out = p if out is None else ir.mul(out, p)
        if out is None:
            return num(q)
        if q == 1:
            return out
        if out.op == 'add':
            c, d = _lin_of(out)
            return _build_lin(c * q, {k: [e[0] * q, e[1]] for k, e in d.items()})
        return ir.mul(num(q), out)
    if u.op == 'fn' and u.val == 'log':
        a = na[0]
        if a.op == 'fn' and a.val == 'exp':
            return a.args[0]
    if u.op == 'fn' and u.val == 'exp':
        a = na[0]
        if a.op == 'fn' and a.val == 'log':
            return a.args[0]
    if all(x is y for x, y in zip(na, u.args)):
        return u
    return ir.rebuild(u, na)


def _distribute(q, fs, ex):
    """(a*B + c) * B^-1  ->  a + c*B^-1"""
    for i, (s, e) in enumerate(fs):
        if e != 1 or s.op != 'add':
            continue
        for j, (b, k) in enumerate(fs):
            if j == i or k != -1:
                continue
            c, d = _lin_of(s)
            hit = False
            for co, t in d.values():
                if t is b or any(x is b for x, n in _factors(t)[1] if n >= 1):
                    hit = True
                    break
            if not hit:
                continue
            inv = ir.pw(b, num(-1))
            parts = []
            if c:
                parts.append(ir.mul(num(c), inv))
            for co, t in d.values():
                parts.append(red(ir.mul(num(co), ir.mul(t, inv))))
            r = parts[0]
            for x in parts[1:]:
                r = ir.add(r, x)
            rest = num(q)
            for n, (bb, kk) in enumerate(fs):
                if n not in (i, j):
                    rest = ir.mul(rest, ir.pw(bb, num(kk)))
            if ex is not None:
                rest = ir.mul(rest, ir.fn('exp', ex))
            return red(ir.mul(rest, red(r)))
    return None


def red_cmp(b):
    """reduce a comparison: one side zero"""
    if b.op in ('lt', 'le'):
        return ir.cmp_(b.op, ir.ZERO, red(ir.sub(b.args[1], b.args[0])))
    if b.op in ('and', 'or', 'not'):
        return ir.rebuild(b, tuple(red_cmp(a) for a in b.args))
    if b.op == 'eq':
        return ir.cmp_('eq', ir.ZERO, red(ir.sub(b.args[0], b.args[1])))
    return b


def square_roots(t):
    """nodes of t of the form (q * prod b_i^(2 n_i)) ** (k/2):  [(node, q, k, [(b_i, 2 n_i)])]"""
    out = []
    for u in ir.topo([t]):
        if u.op == 'pow' and u.args[1].op == 'num' and u.args[1].val.denominator == 2:
            q, fs, ex = _factors(u.args[0])
            if ex is None and q > 0 and fs and all(e.denominator == 1 and e % 2 == 0 for _, e in fs):
                out.append((u, q, u.args[1].val, fs))
    return out


def unroot(t, sign):
    """replace square roots of squares using sign(base) -> 1 / -1 / None"""
    for _ in range(4):
        mp = {}
        for u, q, k, fs in square_roots(t):
            r = ir.pw(num(q), num(k))
            for b, e in fs:
                s = sign(b)
                if s is None:
                    break
                r = ir.mul(r, ir.pw(b if s > 0 else ir.neg(b), num(e * k)))
            else:
                mp[u.id] = r
        if not mp:
            return t
        t = red(ir.subst(t, mp))
    return t
