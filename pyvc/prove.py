"""Discharging obligations.  Every back end is sound on its own; an obligation is
discharged when one of them accepts it."""
import time
from fractions import Fraction
import mpmath
from . import ir, nf, oracle, smt, ival, reduce
from .ir import num, cmp_, band, bnot
from .engine import relevant


class Result:
    def __init__(self, ok, backend='', detail='', witness=None):
        self.ok, self.backend, self.detail, self.witness = ok, backend, detail, witness


def make_oracle(ob):
    o = oracle.Oracle(ob.box)
    for c in ob.pc:
        o.add(c)
    return o


def _merge_near(entries):
    """entries: list of (mono tuple, coef mpf, side).  Groups by atoms with nearly
    equal exponents; yields (list of entries, max exponent deviation per atom)"""
    groups = []
    for mono, c, side in entries:
        keys = tuple(k for k, _ in mono)
        for g in groups:
            if g[0] == keys and all(abs(float(a[1] - b[1])) <= 1e-6 for a, b in zip(mono, g[1])):
                g[2].append((mono, c, side))
                break
        else:
            groups.append((keys, mono, [(mono, c, side)]))
    return groups


def approx_eq(o, pl, pr, rtol):
    """|L - R| <= rtol * |L|  from canonical forms with numeric constants"""
    entries = []
    for side, p in ((1, pl), (-1, pr)):
        for m, cs in nf.numeric_groups(p).items():
            entries.append((m, sum(cs), side))
    if len(entries) > 400:
        return False, 'too many terms'
    groups = _merge_near(entries)
    total_err = mpmath.mpf(0)
    signs = set()
    mags = []
    for keys, mono, items in groups:
        dev = mpmath.mpf(0)
        for m, c, s in items:
            for (k, e), (_, e0) in zip(m, mono):
                if e != e0:
                    lo, hi = o.rng(nf.ATOMS[k][1])
                    if not (lo > 1e-300 and hi < 1e300):
                        return False, 'exponent mismatch on an unbounded factor'
                    import math
                    dev += abs(mpmath.mpf((e - e0).numerator) / (e - e0).denominator) * max(abs(math.log(lo)), abs(math.log(hi)))
        tot = sum(c * s for m, c, s in items)
        mag = sum(abs(c) for m, c, s in items)
        left = sum(c for m, c, s in items if s == 1)
        mags.append((abs(tot) + 2 * dev * mag, left, mono))
    if len(groups) == 1:
        e, left, _ = mags[0]
        ok = abs(left) > 0 and e <= rtol * abs(left)
        return bool(ok), 'relative deviation %s' % mpmath.nstr(e / abs(left), 5) if left else 'no matching term'
    if all(left and e <= mpmath.mpf(1e-14) * abs(left) for e, left, _ in mags):
        return True, 'constants equal to rounding'        # literals written to 16 digits
    # several groups: all left terms must have one sign
    for e, left, mono in mags:
        if e > rtol * abs(left):
            return False, 'monomial mismatch (deviation %s of %s)' % (mpmath.nstr(e, 5), mpmath.nstr(left, 5))
        for k, x in mono:
            lo, hi = o.rng(nf.ATOMS[k][1])
            if lo < 0 and not (x.denominator == 1 and x.numerator % 2 == 0):
                return False, 'sign of a term unknown'
        signs.add(left > 0)
    return len(signs) == 1, 'termwise'


def _eq_from_facts(o, ob, d):
    """d == 0 as a multiple of an assumed equation"""
    ctx = o.ctx
    try:
        p = ctx.clear(ctx.nf(d))
        if not p:
            return True
        for c in ob.pc:
            if c.op != 'eq':
                continue
            h = ctx.clear(ctx.nf(ir.sub(c.args[0], c.args[1])))
            if not h or len(h) > 200:
                continue
            lead = min(h, key=lambda m: tuple(m))
            for m, cf in list(p.items())[:60]:
                inv = tuple(sorted((k, -e) for k, e in lead))
                q = nf.pmul({m: cf}, {inv: 1 / h[lead]})
                r = nf.padd(p, nf.pmul(q, h), -1)
                if not ctx.clear(r):
                    return True
    except (nf.TooBig, ir.Unsupported, OverflowError):
        return False
    return False


def solve_facts(o, ob):
    """rewrites  fresh := term  from assumed equations linear in a fresh symbol"""
    env = {}
    for f in ob.pc:
        if f.op != 'eq':
            continue
        try:
            h = o.ctx.nf(ir.sub(f.args[0], f.args[1]))
        except (nf.TooBig, ir.Unsupported, OverflowError):
            continue
        if len(h) > 40:
            continue
        for m, c in h.items():
            if len(m) != 1 or m[0][1] != 1:
                continue
            key = nf.ATOMS[m[0][0]][0]
            if key[0] != 'sym' or '!' not in key[1] or ir.sym(key[1]).id in env:
                continue
            rest = {mm: -cc / c for mm, cc in h.items() if mm != m}
            t = nf.poly_term(rest)
            fs = set(ir.free_syms([t]))
            if key[1] in fs or any(ir.sym(x).id in env for x in fs):
                continue
            k0 = ir.sym(key[1]).id
            env = {k: ir.subst(v, {k0: t}) for k, v in env.items()}
            env[k0] = t
            break
    return env


class Ob2:
    def __init__(self, pc):
        self.pc = pc


def ties(pc):
    """x <= c and c <= x among the facts: x is c"""
    les = {}
    env = {}
    for f in pc:
        if f.op == 'le':
            les[(f.args[0].id, f.args[1].id)] = f
        elif f.op == 'eq':
            for x, c in (f.args, f.args[::-1]):
                if x.op == 'sym' and c.op == 'num' and x.id not in env:
                    env[x.id] = c
    for (i, j), f in les.items():
        x, c = f.args
        if (j, i) in les and x.op == 'sym' and c.op == 'num':
            env[x.id] = c
    return env


def _abs_goal(o, a, b, rtol, atol):
    d = ir.sub(a, b)
    r = o.rng(b)
    if r[0] >= 0:
        s = b
    elif r[1] <= 0:
        s = ir.neg(b)
    else:
        s = None
    t = Fraction(repr(rtol)) if rtol else Fraction(0)
    tol = ir.mul(num(t), s) if s is not None else ir.ZERO
    if atol:
        tol = ir.add(tol, num(Fraction(repr(atol))))
    return band(cmp_('le', d, tol), cmp_('le', ir.neg(d), tol))


def cleared_sign(o, d):
    """sign of d by multiplying with positive sum atoms and expanding:
    2 / 1 / None"""
    try:
        p = o.ctx.nf(d)
    except (nf.TooBig, ir.Unsupported, OverflowError):
        return None
    for _ in range(10):
        s = o.polysign(p)
        if s is not None:
            return s
        todo = None
        for m in p:
            for k, e in m:
                if nf.ATOMS[k][0][0] == 'sum' and (e < 0 or e >= 1):
                    if o.rng(nf.ATOMS[k][1])[0] > 0 or e >= 1 and min(dict(mm).get(k, 0) for mm in p) >= 0:
                        todo = k if todo is None else max(todo, k)
        if todo is None:
            break
        try:
            p = o.ctx._clear1(p, todo)
        except nf.TooBig:
            return None
        if not p:
            return 1
    # shift variables to their lower/upper bounds
    return shifted_sign(o, p)


def shifted_sign(o, p):
    syms = {}
    for m in p:
        for k, e in m:
            key = nf.ATOMS[k][0]
            if key[0] == 'sym':
                if e.denominator != 1 or e < 0 or e > 8:
                    syms[k] = None
                elif k not in syms:
                    lo, hi = o.rng(nf.ATOMS[k][1])
                    opts = []
                    if lo > -1e300 and lo != 5e-324 and lo != 0:
                        opts.append((Fraction(lo), 1))
                    if hi < 1e300:
                        opts.append((Fraction(hi), -1))
                    syms[k] = opts
    ks = [k for k, v in syms.items() if v]
    if not ks or len(ks) > 5:
        return None
    import itertools
    for combo in itertools.product(*[[None] + syms[k] for k in ks]):
        if all(c is None for c in combo):
            continue
        q = p
        signs = {}
        try:
            for k, c in zip(ks, combo):
                if c is None:
                    continue
                base, sg = c
                na = nf.atom(('sym', '~shift%d%s' % (k, sg)), ir.sym('~shift%d%s' % (k, sg)))
                o.box['~shift%d%s' % (k, sg)] = (0.0, float('inf'))
                lin = {((na, Fraction(1)),): Fraction(sg)}
                if base:
                    lin[()] = base
                out = {}
                for m, cf in q.items():
                    d = dict(m)
                    e = d.pop(k, 0)
                    t = {tuple(sorted(d.items())): cf}
                    for _ in range(int(e)):
                        t = nf.pmul(t, lin)
                    out = nf.padd(out, t)
                q = out
        except nf.TooBig:
            continue
        s = o.psign(q)
        if s is not None:
            return s
    return None


def term_size(ts):
    return len(ir.topo(ts))


def split_goal(g):
    return list(g.args) if g.op == 'and' else [g]


def prove(ob, budget=20.0, max_boxes=200000, thorough=False):
    t0 = time.process_time()
    deadline = t0 + budget
    o = make_oracle(ob)
    detail = []
    goal = ob.goal
    if goal.op == 'true':
        return Result(True, 'syntactic')
    if o.decide(goal) is True:
        return Result(True, 'path facts / scalar intervals')
    # contradictory path?
    for i, c in enumerate(ob.pc):
        pass
    if ob.kind == 'eq' and ob.lhs is not None:
        r = prove_eq(ob, o, deadline, max_boxes, detail)
        if r is not None:
            return r
    elif goal.op != 'false':
        r = prove_le(ob, o, goal, deadline, max_boxes, detail)
        if r is not None:
            return r
    # last resort: path infeasible
    r = infeasible(ob, o, deadline, max_boxes)
    if r:
        return Result(True, r)
    w = None
    if goal.op == 'false':
        detail.append('path condition not refuted: ' + ' & '.join(ir.show(c)[:200] for c in ob.pc[-6:]))
    return Result(False, '', '; '.join(d for d in detail if d)[:1500], ob.witness)


def infeasible(ob, o, deadline, max_boxes):
    if not ob.pc:
        return None
    rel = ob.pc
    try:
        st, m, be = smt.check(list(rel), ir.blit(False), o, min(3000, max(200, (deadline - time.process_time()) * 300)), want_model=True)
        if st == 'unsat':
            return be + ' (path infeasible)'
        if st == 'sat' and m and ob.goal.op == 'false':
            ob.witness = m
    except ir.Unsupported:
        pass
    if ob.goal.op == 'false':
        last = ob.pc[-1]
        box = {k: v for k, v in ob.box.items()}
        rest = list(ob.pc[:-1])
        try:
            neg = bnot(last)
            if neg.op in ('lt', 'le', 'and', 'or'):
                r = ival.bnb(neg, rest, box, max_boxes=min(max_boxes, 100000), deadline=deadline)
                if r.ok:
                    return 'interval branch-and-bound (path infeasible, %d boxes)' % r.boxes
        except (ir.Unsupported, ValueError):
            pass
    return None


def prove_eq(ob, o, deadline, max_boxes, detail):
    a, b = ob.lhs, ob.rhs
    try:
        a, b = reduce.red(a), reduce.red(b)
    except (OverflowError, ZeroDivisionError):
        pass
    d = ir.sub(a, b)
    if d is ir.ZERO:
        return Result(True, 'syntactic')
    tie = ties(ob.pc)
    if tie:
        a, b = ir.subst(a, tie), ir.subst(b, tie)
        try:
            a, b = reduce.red(a), reduce.red(b)
        except (OverflowError, ZeroDivisionError):
            pass
        d = ir.sub(a, b)
        if d is ir.ZERO:
            return Result(True, 'syntactic')
    ctx = o.ctx
    try:
        pa, pb = ctx.nf(a), ctx.nf(b)
        if pa == pb:
            return Result(True, 'canonical form')
        diff = nf.padd(pa, pb, -1)
        if len(diff) <= 600 and not ctx.clear(diff):
            return Result(True, 'canonical form')
        if ob.rtol:
            ok, why = approx_eq(o, pa, pb, ob.rtol)
            if ok:
                return Result(True, 'canonical form (constants within tolerance)')
            detail.append('canonical forms differ: ' + why)
        else:
            detail.append('canonical forms differ')
        # both sides equal after taking a common power / log?
        if _eq_from_facts(o, ob, d):
            return Result(True, 'canonical form modulo assumed equations')
        env = solve_facts(o, ob) if any('!' in x for x in ir.free_syms([d])) or ob.fresh else None
        if env:
            d2 = ir.subst(d, env)
            ob2 = Ob2(tuple(ir.subst(c, env) for c in ob.pc))
            if not ctx.clear(ctx.nf(d2)) or _eq_from_facts(o, ob2, d2):
                return Result(True, 'canonical form modulo assumed equations')
    except nf.TooBig:
        detail.append('canonical form too large')
    except (OverflowError, ZeroDivisionError) as e:
        detail.append('canonical form: %s' % e)
    goal = _abs_goal(o, a, b, max(ob.rtol, 1e-11) if ob.rtol else 0, ob.atol)
    small = term_size([d]) < 150
    # exact via SMT when no tolerance needed
    if small:
        rel = relevant(ob.pc, ob.goal)
        try:
            g = ob.goal if not ob.rtol else goal
            st, m, be = smt.check(rel, g, o, 3000, want_model=True)
            if st == 'unsat':
                return Result(True, be)
            if st == 'sat' and m:
                ob.witness = m
                detail.append('%s: sat' % be)
            else:
                detail.append('%s: %s' % (be, st))
        except ir.Unsupported as e:
            detail.append('smt: %s' % e)
    if ob.atol:
        try:
            t = nf.poly_term(ctx.tidy(nf.padd(ctx.nf(a), ctx.nf(b), -1)))
            g2 = band(cmp_('le', t, num(ob.atol)), cmp_('le', ir.neg(t), num(ob.atol)))
            r = run_bnb(ob, g2, deadline, min(max_boxes, 20000))
            if r.ok:
                return Result(True, 'canonical form + interval branch-and-bound (%d boxes)' % r.boxes)
        except (nf.TooBig, OverflowError, ZeroDivisionError):
            pass
    if ob.rtol or ob.atol:
        r = run_bnb(ob, goal, deadline, max_boxes)
        if r.ok:
            return Result(True, 'interval branch-and-bound (%d boxes)' % r.boxes)
        detail.append('interval: ' + r.reason)
        if r.worst and not ob.witness:
            ob.witness = r.worst
    return None


def simplified(o, g):
    """the comparison divided by its positive canonical content, when smaller"""
    if g.op not in ('lt', 'le'):
        return g
    d = ir.sub(g.args[1], g.args[0])
    try:
        p = o.ctx.nf(d)
        if not 2 <= len(p) <= 40:
            return g
        p = o.ctx.collapse(p)
        if len(p) < 2:
            return g
        c, m, q, pos = o.ctx.content(p)
        if m and o.psign({m: Fraction(1)}) != 2:
            return g
        t = nf.poly_term(q)
    except (nf.TooBig, ir.Unsupported, OverflowError):
        return g
    if not set(ir.free_syms([t])) < set(ir.free_syms([d])) and term_size([t]) > .7 * term_size([d]):
        return g
    return cmp_(g.op, ir.ZERO, t)


def run_bnb(ob, goal, deadline, max_boxes):
    box = dict(ob.box)
    try:
        try:
            goal = reduce.red_cmp(goal)
            if goal.op == 'true':
                return ival.BnBResult(True, 0)
            if goal.op == 'false':
                return ival.BnBResult(False, 0, 'reduces to false')
            pcs = [reduce.red_cmp(c) for c in ob.pc]
            if goal.op in ('lt', 'le', 'and') and reduce.square_roots(goal):
                signs = {}

                def sign(b):
                    if b.id not in signs:
                        signs[b.id] = None
                        for sg, g in ((1, cmp_('lt', ir.ZERO, b)), (-1, cmp_('lt', b, ir.ZERO))):
                            if ival.bnb(g, pcs, dict(box), max_boxes=20000, deadline=deadline).ok:
                                signs[b.id] = sg
                                break
                    return signs[b.id]
                goal = band(*[cmp_(x.op, ir.ZERO, reduce.unroot(ir.sub(x.args[1], x.args[0]), sign)) if x.op in ('lt', 'le') else x
                              for x in split_goal(goal)])
        except (OverflowError, ZeroDivisionError):
            pcs = list(ob.pc)
        return ival.bnb(goal, pcs, box, max_boxes=max_boxes, deadline=deadline)
    except ir.Unsupported as e:
        return ival.BnBResult(False, 0, str(e))


def prove_le(ob, o, goal, deadline, max_boxes, detail):
    parts = split_goal(goal)
    backs = []
    for g in parts:
        if o.decide(g) is True:
            backs.append('path facts / scalar intervals')
            continue
        if g.op in ('lt', 'le'):
            d = ir.sub(g.args[1], g.args[0])
            s = cleared_sign(o, d)
            if s == 2 or (s == 1 and g.op == 'le'):
                backs.append('canonical form sign')
                continue
            try:
                if g.op == 'le' and not o.ctx.clear(o.ctx.nf(d)):
                    backs.append('canonical form')
                    continue
            except (nf.TooBig, OverflowError, ir.Unsupported):
                pass
        if g.op == 'not' and g.args[0].op == 'eq':
            # nonzero: either sign
            x = ir.sub(*g.args[0].args)
            s = cleared_sign(o, x)
            if s in (2, -2):
                backs.append('canonical form sign')
                continue
            gs = [cmp_('lt', ir.ZERO, x), cmp_('lt', x, ir.ZERO)]
        else:
            gs = [g]
        small = term_size([g]) < 250
        done = False
        if any(u.op == 'fn' for u in ir.topo([g])):
            # transcendental: a short interval attempt before the SMT solvers
            for x in gs:
                y = reduce.red_cmp(x)
                if y.op == 'true':
                    done = True
                elif y.op in ('lt', 'le', 'and', 'or'):
                    r = run_bnb(ob, y, min(deadline, time.process_time() + 3), 4000)
                    if r.ok:
                        done = True
                if done:
                    backs.append('interval branch-and-bound')
                    break
        if done:
            continue
        rel = relevant(ob.pc, g)
        if small:
            try:
                st, m, be = smt.check(rel, g, o, 2500, want_model=True)
                if st == 'unsat':
                    backs.append(be)
                    continue
                if st == 'sat' and m:
                    ob.witness = m
                detail.append('%s: %s' % (be, st))
            except ir.Unsupported as e:
                detail.append('smt: %s' % e)
        alt = []
        for x in gs:
            y = reduce.red_cmp(x)
            z = simplified(o, y)
            if z is not y and len(ir.free_syms([z])) < len(ir.free_syms([y])):
                alt += [(z, 1), (y, 1)]
            elif z is not y:
                alt += [(y, .1), (z, 1), (y, 1)]
            else:
                alt.append((y, 1))
        if len(gs) > 1:
            alt.sort(key=lambda a: a[1])      # cheap attempts at both signs first
            alt = [(x, .05) for x, _ in alt] + alt
        for gg, share in alt:
            if gg.op == 'true':
                backs.append('term reduction')
                done = True
                break
            if gg.op in ('lt', 'le', 'and', 'or'):
                r = run_bnb(ob, gg, deadline, max(200, int(max_boxes * share)))
                if r.ok:
                    backs.append('interval branch-and-bound (%d boxes)' % r.boxes)
                    done = True
                    break
                detail.append('interval: ' + r.reason)
                if r.worst and not ob.witness:
                    ob.witness = r.worst
        if done:
            continue
        if small and time.process_time() < deadline:
            try:
                st, m, be = smt.check(rel, g, o, max(1000, (deadline - time.process_time()) * 500), want_model=True)
                if st == 'unsat':
                    backs.append(be)
                    continue
            except ir.Unsupported:
                pass
        return None
    return Result(True, ' + '.join(sorted(set(backs))))
