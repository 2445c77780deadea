"""P26, P29: F-16 lookup tables, atmosphere and engine, decided by value partitioning: the argument space is cut at the
grid points into finitely many open cells, grid points and half-lines, the lookup is interpreted abstractly once per part
with a symbolic position inside the part, and the extracted polynomial is compared with the interpolation formula."""
from __future__ import annotations

from .common import *
from . import f16data as D

LL = 'external.aerobench.lowlevel.'


class Part:
    """part of one argument axis: value = step*(base + sgn*f) ; cell index of the interpolation and position in it"""

    def __init__(self, label, pos, lo, hi, tag):
        self.label = label
        self.pos = pos                 # term in grid units
        self.lo, self.hi = lo, hi      # first / last grid coordinate of the table
        self.tag = tag

    def cell(self):
        """(cell index from the table start, position within the cell) of the piecewise linear interpolant"""
        b = self.tag
        j = min(max(b, self.lo), self.hi - 1)
        return j - self.lo, self.pos - j


def axis(name, lo, hi, beyond=True):
    """parts covering the real line, cut at the integers lo..hi"""
    out = []
    for j in range(lo, hi + 1):
        out.append(Part(f'={j}', T(j), lo, hi, j))
        if j < hi:
            out.append(Part(f'{j}..{j + 1}', j + tm.bounded(name + '_in', 0, 1, True, True), lo, hi, j))
    if beyond:
        # the first cells past each end are parts of their own: the lookups truncate to a cell number and clamp it there
        out.append(Part(f'{lo - 1}..{lo}', lo - tm.bounded(name + '_in', 0, 1, True, True), lo, hi, lo - 1))
        out.append(Part(f'={lo - 1}', T(lo - 1), lo, hi, lo - 1))
        out.append(Part(f'<{lo - 1}', lo - 1 - tm.bounded(name + '_out', 0, None, True, False), lo, hi, lo - 1))
        out.append(Part(f'{hi}..{hi + 1}', hi + tm.bounded(name + '_in', 0, 1, True, True), lo, hi, hi))
        out.append(Part(f'={hi + 1}', T(hi + 1), lo, hi, hi))
        out.append(Part(f'>{hi + 1}', hi + 1 + tm.bounded(name + '_out', 0, None, True, False), lo, hi, hi))
    return out


def interp1(row, p):
    j, f = p.cell()
    return row[j] + (row[j + 1] - row[j]) * f


def interp2(rows, pr, pc):
    """bilinear: pr runs over rows, pc over columns"""
    i, g = pr.cell()
    a, b = interp1(rows[i], pc), interp1(rows[i + 1], pc)
    return a + (b - a) * g


def num(t):
    return VNum(T(t), 'float')


def lookups(c):
    """(name, function, argument builder, oracle, axis of the second argument)"""
    out = []
    for n, data in (('cx', D.CX), ('cm', D.CM)):
        out.append((n, D.table(data), F(12), axis('el', -2, 2), False))
    for n, data in (('dlda', D.DLDA), ('dldr', D.DLDR), ('dnda', D.DNDA), ('dndr', D.DNDR)):
        out.append((n, D.table(data), F(10), axis('beta', -3, 3), False))
    for n, data in (('cl', D.CL), ('cn', D.CN)):
        out.append((n, D.table(data), F(5), [p for p in axis('beta', 0, 6) if p.tag >= 0], True))
    return out


def p26(c):
    w = c.world()
    alphas = axis('alpha', -2, 9)

    def run(fn, args, what):
        w.fresh()
        out = w.call(fn, *[num(a) for a in args])
        v = c.returns(out, what)
        return v

    for n, rows, unit, second, odd in lookups(c):
        fn = c.api(LL + f'{n}.{n}')
        for pa in alphas:
            def one(n=n, rows=rows, unit=unit, second=second, odd=odd, fn=fn, pa=pa):
                for pb in second:
                    for s in ((1, -1) if odd else (1,)):
                        al, be = pa.pos * 5, pb.pos * unit * s
                        what = f'{n}(alpha {pa.label} x5, {"-" if s < 0 else ""}second {pb.label} x{unit})'
                        v = run(fn, (al, be), what)
                        r = cells(c, v, what)
                        c.sure(len(r) == 1, f'{what}: scalar result required')
                        c.eq(r[0], interp2(rows, pb, pa) * s, what)
            c.ob(f'{n}/alpha {pa.label}', 'lookup = bilinear interpolation of the published table, last cell extrapolated', one, f'{LL}{n}:{n}')

    def czt(pa):
        be, el = tm.sym('beta'), tm.sym('el')
        what = f'cz(alpha {pa.label} x5)'
        r = cells(c, run(c.api(LL + 'cz.cz'), (pa.pos * 5, be, el), what))
        c.eq(r[0], interp1(D.table(D.CZ)[0], pa) * (1 - (be / F('57.3')) ** 2) - F('.19') * el / 25, what)

    def damp(pa):
        what = f'dampp(alpha {pa.label} x5)'
        r = cells(c, run(c.api(LL + 'dampp.dampp'), (pa.pos * 5,), what))
        rows = D.table(D.DAMPP)
        c.sure(len(r) == 9, f'{what}: nine damping derivatives required, found {len(r)}')
        for i in range(9):
            c.eq(r[i], interp1(rows[i], pa), f'{what}[{i}]')
    for pa in alphas:
        c.ob(f'cz/alpha {pa.label}', 'normal force coefficient: interpolated table, side-slip and elevator terms', lambda pa=pa: czt(pa), f'{LL}cz:cz')
        c.ob(f'dampp/alpha {pa.label}', 'damping derivatives: interpolated table', lambda pa=pa: damp(pa), f'{LL}dampp:dampp')

    def cyt():
        b, a, r = tm.sym('beta'), tm.sym('ail'), tm.sym('rdr')
        v = cells(c, run(c.api(LL + 'cy.cy'), (b, a, r), 'cy'))
        c.eq(v[0], F('-.02') * b + F('.021') * a / 20 + F('.086') * r / 30, 'cy')
    c.ob('cy', 'side force coefficient is the published linear form', cyt, f'{LL}cy:cy')

    alts = [p for p in axis('alt', 0, 5)]
    machs = axis('mach', 0, 5)
    tabs = [D.table(x) for x in (D.THRUST_IDLE, D.THRUST_MIL, D.THRUST_MAX)]
    for pa in alts:
        def thr(pa=pa):
            for pm in machs:
                for lab, pw in (('<50', tm.bounded('pw_lo', None, 50, False, True)), ('>=50', tm.bounded('pw_hi', 50, None))):
                    what = f'thrust(power {lab}, altitude {pa.label} x10000, Mach {pm.label} x0.2)'
                    r = cells(c, run(c.api(LL + 'thrust.thrust'), (pw, pa.pos * 10000, pm.pos / 5), what))
                    q = pa
                    if pa.tag < 0:
                        q = Part('ground', T(F('0.01')) / 10000, 0, 5, 0)      # held at ground level
                    idle, mil, mx = [interp2(t, pm, q) for t in tabs]
                    if lab == '<50':
                        want = idle + (mil - idle) * pw * F('.02')
                    else:
                        want = mil + (mx - mil) * (pw - 50) * F('.02')
                    c.eq(r[0], want, what)
        c.ob(f'thrust/altitude {pa.label}', 'thrust = idle/military/maximum tables interpolated in altitude, Mach and power', thr, f'{LL}thrust:thrust')


def p29(c):
    w = c.world()
    alt, vt = tm.sym('alt'), tm.sym('vt')

    def call(name, args, what):
        w.fresh()
        return cells(c, c.returns(w.call(c.api(LL + name), *[num(a) for a in args]), what), what)

    RO, LAPSE = F('2.377e-3'), F('.703e-5')
    layers = {'troposphere': tm.bounded('alt_t', None, 35000, False, True), 'stratosphere': tm.bounded('alt_s', 35000, None),
              'tropopause': T(35000)}
    for lay, h in layers.items():
        def one(h=h, lay=lay):
            # density law needs a positive temperature factor (true below 142 000 ft)
            pos = tm.lt0(LAPSE * h - 1)
            r = call('adc.adc', (vt, h), f'adc ({lay})')
            c.sure(len(r) == 2, 'adc returns Mach number and dynamic pressure')
            temp = 519 * (1 - LAPSE * h) if lay == 'troposphere' else T(390)
            c.eq(r[0], vt / tm.fn('sqrt', F('1.4') * F('1716.3') * temp), f'Mach number ({lay})', pos)
            c.eq(r[1], F('.5') * RO * tm.fn('pow', 1 - LAPSE * h, T(F('4.14'))) * vt * vt, f'dynamic pressure ({lay})', pos)
        c.ob(f'adc/{lay}', 'two-layer standard atmosphere', one, LL + 'adc:adc')

    t1, t2 = tm.bounded('thtl_lo', None, F('.77')), tm.bounded('thtl_hi', F('.77'), None, True, False)

    def gear():
        c.eq(call('tgear.tgear', (t1,), 'tgear')[0], F('64.94') * t1, 'gearing up to 0.77 throttle')
        c.eq(call('tgear.tgear', (t2,), 'tgear')[0], F('217.38') * t2 - F('117.38'), 'gearing above 0.77 throttle')
    c.ob('tgear/slopes', 'two-slope throttle gearing', gear, LL + 'tgear:tgear')

    def gearends():
        c.eq(call('tgear.tgear', (T(0),), 'tgear(0)')[0], 0, 'power command at closed throttle')
        c.eq(call('tgear.tgear', (T(1),), 'tgear(1)')[0], 100, 'power command at full throttle')
    c.ob('tgear/ends', '0 at closed and 100 at full throttle', gearends, LL + 'tgear:tgear')

    def gearrange():
        x = tm.bounded('thtl', 0, 1)
        r = call('tgear.tgear', (x,), 'tgear')[0]
        c.le(0, r, 'power command is not negative')
        c.le(r, 100, 'power command is at most 100 percent')
    c.ob('tgear/range', 'throttle 0..1 maps into 0..100 percent', gearrange, LL + 'tgear:tgear')

    rt = [('fast', tm.bounded('dp_a', None, 25), lambda d: T(1)), ('between', tm.bounded('dp_b', 25, 50, True, True), lambda d: F('1.9') - F('.036') * d),
          ('slow', tm.bounded('dp_c', 50, None), lambda d: T(F('.1')))]
    for lab, d, f in rt:
        c.ob(f'rtau/{lab}', 'reciprocal time constant of the engine lag', lambda d=d, f=f: c.eq(call('rtau.rtau', (d,), 'rtau')[0], f(d), 'rtau'), LL + 'rtau:rtau')

    def rtau(d):
        return tm.ite(tm.le0(d - 25), T(1), tm.ite(tm.le0(50 - d), T(F('.1')), F('1.9') - F('.036') * d))
    hi, lo = lambda n: tm.bounded(n + '_h', 50, None), lambda n: tm.bounded(n + '_l', None, 50, False, True)
    for lab, p3, p1, want in (
            ('military to afterburner', hi('p3'), hi('p1'), lambda a, b: 5 * (b - a)),
            ('spool up through 50', lo('p3'), hi('p1'), lambda a, b: rtau(60 - a) * (60 - a)),
            ('spool down through 50', hi('p3'), lo('p1'), lambda a, b: 5 * (40 - a)),
            ('below military', lo('p3'), lo('p1'), lambda a, b: rtau(b - a) * (b - a))):
        def pd(p3=p3, p1=p1, want=want, lab=lab):
            r = call('pdot.pdot', (p3, p1), f'pdot ({lab})')[0]
            c.eq(r, want(p3, p1), f'power rate ({lab})')
        c.ob(f'pdot/{lab}', 'first-order engine lag with the published time constants', pd, LL + 'pdot:pdot')

    def settles():
        p = tm.sym('p')
        c.eq(call('pdot.pdot', (p, p), 'pdot(p, p)')[0], 0, 'power rate at the commanded power')
    c.ob('pdot/equilibrium', 'power at its command does not move', settles, LL + 'pdot:pdot')

    def pdot(a, b):
        return call('pdot.pdot', (a, b), 'pdot')[0]

    def up(a, b):
        c.true(tm.lt0(-pdot(a, b)), 'power rises when below its command')

    def down(a, b):
        c.true(tm.lt0(pdot(a, b)), 'power falls when above its command')
    e = tm.bounded('dirm', 0, None, True, False)
    h, f = tm.bounded('dirh', 50, None), tm.bounded('dirl', None, 50, False, True)
    for lab, lo_, hi_ in (('close', 0, 25), ('middle', 25, 50), ('far', 50, None)):
        g = tm.bounded(f'gap_{lab}', lo_, hi_, True, lab == 'middle')
        d = tm.bounded(f'lag_{lab}', max(lo_, 10), hi_, True, lab == 'middle')
        c.ob(f'pdot/direction/below/{lab}', 'power moves toward its command', lambda g=g: (up(50 - e - g, 50 - e), down(50 - e, 50 - e - g)), LL + 'pdot:pdot')
        c.ob(f'pdot/direction/through/{lab}', 'power moves toward its command', lambda d=d: up(60 - d, h), LL + 'pdot:pdot')
        c.ob(f'pdot/direction/above/{lab}', 'power moves toward its command', lambda g=g: (up(h, h + g), down(h + g, h)), LL + 'pdot:pdot')
    c.ob('pdot/direction/down', 'power moves toward its command', lambda: down(h, f), LL + 'pdot:pdot')
