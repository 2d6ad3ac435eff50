"""Counterexample search for obligations that were not discharged, and replay on
the unmodified package.  Nothing found here ever discharges an obligation."""
import random
import time
import math
import numpy as np
from fractions import Fraction
from . import ir, ival
from .engine import Conc, Discard, PathEnd, sample


def run_concrete(spec, values, choices, rng=None, ctol=1e-6):
    c = Conc(values, choices, rng, ctol=ctol)
    try:
        spec(c)
    except Discard:
        return None
    except PathEnd:
        pass
    except RecursionError:
        return None
    return c


def vec_samples(box, n, rs):
    env = {}
    for k, (lo, hi) in box.items():
        l, h = lo, hi
        if l == 5e-324:
            l = 0.0
        if not math.isfinite(l) and not math.isfinite(h):
            v = np.where(rs.random(n) < .5, -1, 1) * 10 ** rs.uniform(-3, 3, n)
        elif not math.isfinite(h):
            v = l + 10 ** rs.uniform(-3, 3, n)
        elif not math.isfinite(l):
            v = h - 10 ** rs.uniform(-3, 3, n)
        else:
            v = rs.uniform(l, h, n)
            if l > 0 and h / l > 20:
                v2 = np.exp(rs.uniform(math.log(l), math.log(h), n))
                v = np.where(rs.random(n) < .7, v2, v)
            edge = rs.random(n)
            v = np.where(edge < 0.03, l, np.where(edge > 0.97, h, v))
        env[k] = v
    return env


def from_ir(ob, rs, n=20000):
    """points where the path condition holds and the goal fails, ranked by margin; when uniform sampling
    finds none, points next to the boundary of each path condition (thin regions between thresholds)"""
    pcs = [c for c in ob.pc if not any('!' in s for s in ir.free_syms([c]))]
    g = ob.goal
    gs = ir.free_syms([g])
    if any('!' in s for s in gs):
        g = None

    def evaluate(env, n):
        memo = {}
        T = [np.asarray(v, bool) * np.ones(n, bool) for v in ival.evalnp(pcs, env, n, memo)] if pcs else []
        ok = np.ones(n, bool)
        for v in T:
            ok &= v
        score = np.zeros(n)
        if g is not None and ob.lhs is not None and ob.kind == 'eq':
            a, b = ival.evalnp([ob.lhs, ob.rhs], env, n, memo)
            m = np.maximum(np.abs(a), np.abs(b)) + 1e-300
            score = np.abs(a - b) / m
            ok &= ~(score <= max(ob.rtol * 10, 1e-7))
        elif g is not None:
            gv = np.asarray(ival.evalnp([g], env, n, memo)[0], bool)
            ok &= ~gv
            if ob.lhs is not None:
                a, b = ival.evalnp([ob.lhs, ob.rhs], env, n, memo)
                score = np.abs(a - b) / (np.maximum(np.abs(a), np.abs(b)) + 1e-300)
        return T, ok, score

    def best(env, ok, score):
        idx = np.where(ok)[0]
        sc = np.nan_to_num(score[idx], nan=1e9, posinf=1e9)
        order = idx[np.argsort(-sc)][:40]
        return [{k: float(env[k][i]) for k in env} for i in order]
    try:
        with np.errstate(all='ignore'):
            env = vec_samples(dict(ob.box), n, rs)
            T, ok, score = evaluate(env, n)
            if ok.any():
                return best(env, ok, score)
            return boundary(env, T, pcs, evaluate, best, rs)
    except Exception:
        return []


def boundary(env, T, pcs, evaluate, best, rs, pairs=400):
    pos = {k: bool((v > 0).all()) for k, v in env.items()}

    def mix(a, b, t):
        return {k: np.exp(np.log(a[k]) * (1 - t) + np.log(b[k]) * t) if pos[k] else a[k] * (1 - t) + b[k] * t for k in a}
    nviol = sum((~t).astype(int) for t in T) if T else None
    if nviol is None:
        return []
    for j in range(len(T)):
        if not T[j].any() or T[j].all():
            continue
        # prefer pairs that violate few other conditions, and that differ in few variables
        yes, no = np.where(T[j])[0], np.where(~T[j])[0]
        others = nviol - ~T[j]
        yes = yes[np.argsort(others[yes], kind='stable')][:pairs]
        no = no[np.argsort(others[no], kind='stable')][:pairs]
        k = max(len(yes), len(no))
        yes, no = np.resize(yes, k), np.resize(no, k)
        a = {s: v[yes] for s, v in env.items()}
        b = {s: v[no] for s, v in env.items()}
        lo, hi = np.zeros(k), np.ones(k)
        for _ in range(45):
            mid = (lo + hi) / 2
            t = np.asarray(evaluate(mix(a, b, mid), k)[0][j], bool)
            lo, hi = np.where(t, mid, lo), np.where(t, hi, mid)
        for off in (1e-10, 1e-7, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1):
            t = np.clip(lo - off * rs.uniform(.3, 1, k), 0, 1)
            e = mix(a, b, t)
            _, ok, score = evaluate(e, k)
            if ok.any():
                return best(e, ok, score)
    return []


def mp_confirms(obs, values, choices):
    """is some undischarged obligation false at this point in exact arithmetic?
    True / False / None (unknown)"""
    unknown = False
    for ob in obs:
        if ob.choices != {k: v for k, v in choices.items() if k in ob.choices} and ob.choices:
            continue
        ts = list(ob.pc) + [ob.goal]
        fs = ir.free_syms(ts + [t for t in (ob.lhs, ob.rhs) if t is not None])
        if any('!' in s for s in fs):
            unknown = True
            continue
        env = {}
        bad = False
        for s in fs:
            if s not in values:
                bad = True
                break
            env[s] = Fraction(values[s])
        if bad:
            unknown = True
            continue
        vals = ival.evalmp(list(ob.pc), env, 40) if ob.pc else []
        if any(v is False for v in vals):
            continue
        if any(v is None for v in vals):
            unknown = True
            continue
        if ob.kind == 'eq' and ob.lhs is not None:
            a, b = ival.evalmp([ob.lhs, ob.rhs], env, 40)
            if a is None or b is None:
                unknown = True
                continue
            if abs(a - b) > max(ob.rtol, 1e-12) * max(abs(a), abs(b)) + ob.atol:
                return True
        else:
            g = ival.evalmp([ob.goal], env, 40)[0]
            if g is False:
                return True
            if g is None:
                return True if ob.kind == 'defined' else None
    return None if unknown else False


def search(spec, obs, seed, seconds, extra_obs_ok=True, maxconc=4000, errors=()):
    """returns dict witness or None"""
    t0 = time.process_time()
    rs = np.random.RandomState(seed)
    rng = random.Random(seed)
    tried = 0

    def attempt(values, choices):
        nonlocal tried
        tried += 1
        c = run_concrete(spec, values, choices, rng)
        if c is None or not c.fails:
            return None
        f = max(c.fails, key=lambda f: f.margin or 0)
        if not (f.margin is not None and f.margin >= 1e-4):
            r = mp_confirms(obs, c.drawn, c.picked)
            if r is False and not errors:
                return None
            if r is None and (f.margin or 0) < 1e-5:
                return None
        return {'values': c.drawn, 'choices': c.picked, 'label': f.label, 'why': f.why}

    for ob in obs:
        if ob.witness:
            w = {k: float(v) for k, v in ob.witness.items() if '!' not in k}
            r = attempt(w, ob.choices)
            if r:
                return r
    for ob in obs[:30]:
        if time.process_time() - t0 > seconds * .6:
            break
        for w in from_ir(ob, rs):
            r = attempt(w, ob.choices)
            if r:
                return r
            if time.process_time() - t0 > seconds * .6:
                break
    chs = [ob.choices for ob in obs] or [{}]
    while time.process_time() - t0 < seconds and tried < maxconc:
        r = attempt({}, rng.choice(chs) if rng.random() < .7 else {})
        if r:
            return r
    return None
