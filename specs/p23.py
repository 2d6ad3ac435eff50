"""Standard pipe and wire gauge lookups (fluids/piping.py)."""
import re
from pyvc.run import spec, static
from pyvc import instr
from specs.common import rejected, formula
from specs.p16 import finite
N_ = 'fluids.piping.'
ASME = ['5', '10', '20', '30', '40', '60', '80', '100', '120', '140', '160', 'STD', 'XS', 'XXS', '5S', '10S', '40S', '80S']
NAMES = ASME + '''40D1527 80D1527 ABSD2680 PVCD2680 DR25C900 DR18C900 DR14C900 CIDR51C905 CIDR41C905 CIDR325C905 CIDR25C905 CIDR21C905 CIDR18C905 CIDR14C905
IPSDR21 IPSDR26 IPSDR325 IPSDR41 PS115F679 PS75F679 PS46F679 PVCD2665 40D1785 80D1785 120D1785 DR135D2241 DR17D2241 DR21D2241 DR26D2241 DR325D2241 DR41D2241 DR64D2241
DR21D2241CTS DR17D2241CTS DR135D2241CTS DR11D2241CTS DR21D2241PIP DR26D2241PIP DR325D2241PIP DR35D2241PIP DR41D2241PIP DR51D2241PIP DR81D2241PIP
S40F441IPS S80F441IPS S40F441SI S80F441SI DR325F2619SI DR26F2619SI DR21F2619SI DR17F2619SI DR135F2619SI DR11F2619SI DR9F2619SI DR73F2619SI DR7F2619SI
DR325F2619IPS DR26F2619IPS DR21F2619IPS DR17F2619IPS DR135F2619IPS DR11F2619IPS DR9F2619IPS DR73F2619IPS DR7F2619IPS BS1387LIGHT BS1387MEDIUM BS1387HEAVY'''.split()
WIRES = {'BWG': (36, '0.5', '0.004'), 'AWG': (50, '0.58', '0.00099'), 'SWG': (50, '0.49', '0.0044'), 'MWG': (45, '0.18', '0.004'), 'BSWG': (50, '0.5', '0.001'), 'SSWG': (80, '0.227', '0.013')}


def rows(sch):
    return list(zip(*instr.real('piping').schedule_lookup[sch]))


def c(S, x):
    return S.const(repr(float(x)))


@spec('P23', params=[(n, k) for n in NAMES for k in ('Di', 'Do')], max_paths=400, cross=15)
def nearest(S, n, k):
    """the smallest pipe of the schedule that is at least as large as asked for"""
    x = S.real(k, 1e-4, 4)
    i = dict(Di=1, Do=2)[k]
    o = S.attempt(N_ + 'nearest_pipe', **{k: x, 'schedule': n})
    for r in rows(n):
        S.assume(abs(x * 1000 / c(S, r[i]) - 1) > 1e-12)
        if x * 1000 < c(S, r[i]):
            if not o.ok:
                return S.check(False, 'a pipe of the schedule is found')
            return [S.eq(a, c(S, b) * s, lab) for a, b, s, lab in zip(o.value, r, (1, S.const('0.001'), S.const('0.001'), S.const('0.001')), ('nominal size', 'inner diameter', 'outer diameter', 'wall thickness'))]
    rejected(S, o, 'larger than the largest')


@spec('P23')
def requests(S):
    x = S.real('size', 1e-4, 4)
    f = lambda **k: S.call(N_ + 'nearest_pipe', **k)
    a = S.attempt(N_ + 'nearest_pipe', Di=x)
    b = S.attempt(N_ + 'nearest_pipe', Di=x, schedule='40')
    S.check(a.ok == b.ok and (not a.ok or all(u == v for u, v in zip(a.value, b.value))), 'schedule 40 by default')
    for n in (40, 40.0):
        b = S.attempt(N_ + 'nearest_pipe', Di=x, schedule=n)
        S.check(a.ok == b.ok and (not a.ok or all(u == v for u, v in zip(a.value, b.value))), 'schedule as a number')
    rejected(S, S.attempt(N_ + 'nearest_pipe', Di=x, schedule='45'), 'unknown schedule')
    rejected(S, S.attempt(N_ + 'nearest_pipe', NPS=7, schedule='40'), 'unknown nominal size')


@static('P23')
def nominal(tier, seed):
    """every tabulated pipe is found by its nominal size and by its own diameters"""
    p = instr.real('piping')
    out = []
    for n in NAMES:
        ok = bad = 0
        for r in rows(n):
            w = (r[0], r[1] / 1000, r[2] / 1000, r[3] / 1000)
            near = lambda v: all(abs(a - b) <= 1e-9 * b for a, b in zip(v, w))
            good = near(p.nearest_pipe(NPS=r[0], schedule=n)) and near(p.nearest_pipe(Di=r[1] / 1000 * (1 - 1e-9), schedule=n)) and near(p.nearest_pipe(Do=r[2] / 1000 * (1 - 1e-9), schedule=n))
            out.append(('%s: size %g' % (n, r[0]), good, repr(r)))
    return finite(out, N_ + 'nearest_pipe')


ODD = {('DR26F2619', 20.0), ('DR11F2619', 28.0), ('S80F441', 400.0)}      # known findings


@static('P23')
def schedules(tier, seed):
    """dimensional consistency of the published tables"""
    p = instr.real('piping')
    out = [('schedules', sorted(p.schedule_lookup) == sorted(NAMES), repr(sorted(p.schedule_lookup)))]
    for n in NAMES:
        t = p.schedule_lookup[n]
        out.append((n + ': columns of one length', len({len(v) for v in t}) == 1 and len(t) == 4 and len(t[0]) > 0, ''))
        for lab, v in zip(('nominal sizes', 'inner diameters', 'outer diameters'), t):
            out.append(('%s: %s ascend' % (n, lab), all(a < b for a, b in zip(v, v[1:])), repr(v)))
        for r in rows(n):
            out.append(('%s: outer diameter of size %g is the inner and two walls' % (n, r[0]), r[3] > 0 and abs(r[2] - 2 * r[3] - r[1]) <= .05, repr(r)))
        m = re.match('(?:CI|IPS)?DR([0-9]+)', n)
        if m:
            dr = {'135': 13.5, '325': 32.5, '73': 7.3}.get(m.group(1)) or float(m.group(1))
            for r in rows(n):
                if (n.replace('SI', '').replace('IPS', ''), r[0]) not in ODD:
                    out.append(('%s: wall of size %g is not below its dimension ratio' % (n, r[0]), r[2] / r[3] <= dr * 1.012, repr(r)))
    od = {}
    for n in ASME:
        for r in rows(n):
            od.setdefault(r[0], r[2])
            out.append(('%s: steel outer diameter of size %g is that of the other schedules' % (n, r[0]), abs(od[r[0]] - r[2]) <= .11, repr(r)))
    wall = {n: {r[0]: r[3] for r in rows(n)} for n in ASME}
    for a, b in zip(ASME[:11], ASME[1:11]):
        for k in wall[a]:
            later = [n for n in ASME[ASME.index(b):11] if k in wall[n]]
            if later:
                out.append(('wall of size %g does not fall from schedule %s to %s' % (k, a, later[0]), wall[a][k] <= wall[later[0]][k], ''))
    for a, b in [(n, n.replace('SI', 'IPS')) for n in NAMES if n.endswith('SI')]:
        for r, q in zip(rows(a), rows(b)):
            if (a.replace('SI', ''), r[0]) not in ODD:
                out.append(('%s: size %g agrees with %s' % (a, r[0], b), all(abs(x - y) <= .09 for x, y in zip(r[1:], q[1:])), '%r %r' % (r, q)))
        out.append(('%s: as many sizes as %s' % (a, b), len(rows(a)) == len(rows(b)), ''))
    return finite(out, N_ + 'schedule_lookup')


# ---------------------------------------------------------------- wires
@static('P23')
def wires(tier, seed):
    p = instr.real('piping')
    out = [('gauge systems', sorted(p.wire_schedules) == sorted(WIRES), '')]
    for n, (last, hi, lo) in WIRES.items():
        g, t, si, _ = p.wire_schedules[n]
        out.append((n + ': extent', len(g) == len(t) == len(si) == len(set(g)) and t[0] == float(hi) and t[-1] == float(lo), repr((t[0], t[-1]))))
        out.append((n + ': thicknesses fall', all(a > b for a, b in zip(t, t[1:])), repr(t)))
        whole = sorted(x for x in g if x == int(x))
        out.append((n + ': whole gauges without a gap', whole[-1] == last and all(v - u == 1 for u, v in zip(whole, whole[1:])), repr(whole)))
        for a, b, s in zip(g, t, si):
            out.append(('%s: gauge %g in metres' % (n, a), abs(s / (b * .0254) - 1) < 4e-3, repr((b, s))))
            out.append(('%s: gauge %g from its thickness' % (n, a), p.gauge_from_t(p.t_from_gauge(a, True, n), True, n) == a == p.gauge_from_t(p.t_from_gauge(a, False, n), False, n), ''))
            out.append(('%s: thickness of gauge %g' % (n, a), p.t_from_gauge(a, True, n) == s and p.t_from_gauge(a, False, n) == b, ''))
        for bad in (-1., 1000., .123):
            for f, kw in ((p.t_from_gauge, dict(gauge=bad)),):
                try:
                    f(schedule=n, **kw)
                    out.append(('%s: gauge %g rejected' % (n, bad), False, ''))
                except ValueError:
                    out.append(('%s: gauge %g rejected' % (n, bad), True, ''))
    return finite(out, N_ + 'gauge_from_t')


@spec('P23', params=sorted(WIRES), max_paths=600)
def gauge(S, n):
    """between two gauges the larger is chosen unless the smaller is within a tenth of their difference"""
    g, t, si, _ = instr.real('piping').wire_schedules[n]
    x = S.real('t', float(WIRES[n][2]) * 1.0001, 1)
    o = S.attempt(N_ + 'gauge_from_t', x, SI=False, schedule=n)
    S.assume(abs(x / c(S, t[0]) - 1) > 1e-9)
    if x > c(S, t[0]):
        return rejected(S, o, 'thicker than the largest')
    for i in range(1, len(t)):
        a, b = c(S, t[i - 1]), c(S, t[i])
        S.assume(abs(x / b - 1) > 1e-9)
        if x > b:
            S.check(o.ok, 'a gauge')
            f = (x - b) / (a - b)
            S.assume(abs(f - S.const('0.1')) > 1e-9)
            return S.eq(o.value, c(S, g[i] if f < S.const('0.1') else g[i - 1]), 'gauge chosen')


@spec('P23')
def wire_requests(S):
    x = S.real('t', .01, .4)
    for kw in (dict(), dict(SI=False)):
        rejected(S, S.attempt(N_ + 'gauge_from_t', x, schedule='XWG', **kw), 'unknown gauge system')
    rejected(S, S.attempt(N_ + 't_from_gauge', 5, schedule='XWG'), 'unknown gauge system')
    a, b = S.call(N_ + 'gauge_from_t', x, SI=False), S.call(N_ + 'gauge_from_t', x, SI=False, schedule='BWG')
    S.eq(a, b, 'Birmingham gauge by default')
    S.check(S.call(N_ + 't_from_gauge', 5) == S.call(N_ + 't_from_gauge', 5, SI=True, schedule='BWG'), 'Birmingham gauge in metres by default')


@spec('P23')
def erosion(S):
    rho, C = S.real('rho', 1e-2, 1e4), S.real('C', 1, 1e4)
    v = S.call(N_ + 'erosional_velocity', rho, C)
    # v in ft/s, density in lb/ft^3
    lb, ft = S.const('0.45359237'), S.const('0.3048')
    S.eq(v, C * ft / S.m.sqrt(rho / lb * ft ** 3), 'API 14E erosional velocity')
