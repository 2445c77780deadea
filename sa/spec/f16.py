"""P25 controller saturation, P27 purity, P28 plant equations, P30 closed loop, P31 Morelli model, P32 trim cost."""
from __future__ import annotations

from .common import *
from . import f16data as D
from .f16tab import LL, Part, axis, interp1, interp2, num

AB = 'external.aerobench.'
RTOD = F('57.29578')


def poly(co, x):
    r = T(0)
    for k in reversed(co):
        r = r * x + k
    return r


# ---------------------------------------------------------------------- P31
LIMITS = [('alpha', -10, 45), ('beta', -30, 30), ('elevator', -25, 25), ('aileron', F('-21.5'), F('21.5')), ('rudder', -30, 30)]


def morelli_oracle(v, p, q, r, cbar, b, V, xcg, xref):
    """published polynomials; v: alpha, beta, elevator, aileron, rudder in radians, already limited"""
    A, B, de, da, dr = v
    M = D.morelli()
    ph, qh, rh = p * b / (2 * V), q * cbar / (2 * V), r * b / (2 * V)

    def mono(co, ms):
        s = T(0)
        for k, m in zip(co, ms):
            s = s + m * k
        return s
    one = T(1)
    cx = mono(M['a'], [one, A, de ** 2, de, A * de, A ** 2, A ** 3]) + poly(M['b'], A) * qh
    cy = mono(M['c'], [B, da, dr]) + poly(M['d'], A) * ph + poly(M['e'], A) * rh
    cz = poly(M['f'][:5], A) * (1 - B ** 2) + M['f'][5] * de + poly(M['g'], A) * qh
    cl0 = mono(M['h'], [B, A * B, A ** 2 * B, B ** 2, A * B ** 2, A ** 3 * B, A ** 4 * B, A ** 2 * B ** 2])
    clda = mono(M['k'], [one, A, B, A ** 2, A * B, A ** 2 * B, A ** 3])
    cldr = mono(M['l'], [one, A, B, A * B, A ** 2 * B, A ** 3 * B, B ** 2])
    cl = cl0 + poly(M['i'], A) * ph + poly(M['j'], A) * rh + clda * da + cldr * dr
    cm0 = mono(M['m'], [one, A, de, A * de, de ** 2, A ** 2 * de, de ** 3, A * de ** 2])
    cm = cm0 + poly(M['n'], A) * qh + cz * (xref - xcg)
    cn0 = mono(M['o'], [B, A * B, B ** 2, A * B ** 2, A ** 2 * B, A ** 2 * B ** 2, A ** 3 * B])
    cnda = mono(M['r'], [one, A, B, A * B, A ** 2 * B, A ** 3 * B, A ** 2, A ** 3, B ** 3, A * B ** 3])
    cndr = mono(M['s'], [one, A, B, A * B, A ** 2 * B, A ** 2])
    cn = cn0 + poly(M['p'], A) * ph + poly(M['q'], A) * rh + cnda * da + cndr * dr - cy * (xref - xcg) * (cbar / b)
    return [cx, cy, cz, cl, cm, cn]


def p31(c):
    w = c.world()
    fn = c.api(LL + 'morellif16.Morellif16')
    rad = PI / 180

    def parts(k):
        n, lo, hi = LIMITS[k]
        return [('below', tm.bounded(n + '_below', None, lo), lo), ('inside', tm.bounded(n + '_in', lo, hi, True, True), None),
                ('above', tm.bounded(n + '_above', hi, None), hi)]
    names = ['Cx', 'Cy', 'Cz', 'Cl', 'Cm', 'Cn']
    rest = [tm.sym(n) for n in ('p', 'q', 'r')] + [tm.sym(n, 'pos') for n in ('cbar', 'b', 'V')] + [tm.sym('xcg'), tm.sym('xcgref')]
    grid = [[]]
    for k in range(5):
        grid = [g + [x] for g in grid for x in parts(k)]
    for lab in ('below', 'inside', 'above'):
        for lab2 in ('below', 'inside', 'above'):
            def one(lab=lab, lab2=lab2):
                for g in grid:
                    if (g[0][0], g[1][0]) != (lab, lab2):
                        continue
                    w.fresh()
                    what = 'Morellif16(' + ', '.join(f'{LIMITS[i][0]} {x[0]}' for i, x in enumerate(g)) + ')'
                    out = w.call(fn, *[num(x[1] * rad) for x in g], *[num(t) for t in rest])
                    got = cells(c, c.returns(out, what), what)
                    c.sure(len(got) == 6, f'{what}: six coefficients required')
                    want = morelli_oracle([(x[1] if x[2] is None else T(x[2])) * rad for x in g], *rest)
                    for n, a, b in zip(names, got, want):
                        c.eq(a, b, f'{n} in {what}')
            c.ob(f'morelli/alpha {lab}/beta {lab2}', 'coefficients = published polynomials of the limited inputs', one, LL + 'morellif16:Morellif16')


# ---------------------------------------------------------------------- P25
ULIM = [('ThrottleMin', 'ThrottleMax', 0, 1), ('ElevatorMinDeg', 'ElevatorMaxDeg', -25, 25), ('AileronMinDeg', 'AileronMaxDeg', F('-21.5'), F('21.5')),
        ('RudderMinDeg', 'RudderMaxDeg', -30, 30)]
ORDER = [1, 7, 13, 2, 6, 8, 14, 15]


def gains():
    kl, kt = D.row(D.K_LONG), D.table(D.K_LAT)
    return [kl + [F(0)] * 5, [F(0)] * 3 + kt[0], [F(0)] * 3 + kt[1]]


def feedback(x, uref):
    """unlimited command: trim + linear feedback of the perturbation; throttle as commanded"""
    xeq, ueq = D.row(D.XEQ), D.row(D.UEQ)
    d = [x[i] - (xeq[i] if i < 13 else 0) for i in ORDER]
    u = [T(uref[3]) + ueq[0]]
    for i, r in enumerate(gains()):
        s = T(0)
        for k, y in zip(r, d):
            s = s - y * k
        u.append(s + ueq[i + 1])
    return d, u


def controller(c):
    return c.returns(c.w.call(c.api(LL + 'low_level_controller.LowLevelController')), 'LowLevelController()')


def p25(c):
    x, uref = syms(16, 'x'), syms(4, 'ref')
    w = c.world()

    def run(llc=None, n=16):
        llc = llc or controller(c)
        xs = x + syms(n - 16, 'extra')
        out = w.method(llc, 'get_u_deg', w.arr(uref), w.arr(xs))
        v = w.it.res(c.returns(out, 'get_u_deg'))
        parts = [cells(c, p, 'get_u_deg result') for p in w.it.iterate(v)]
        c.sure(len(parts) == 2 and len(parts[0]) == 8 and len(parts[1]) == 4, 'get_u_deg returns the controller state (8) and the commands (4)')
        return parts

    names = ['throttle', 'elevator', 'aileron', 'rudder']
    for i, n in enumerate(names):
        lo, hi = ULIM[i][2:]

        def within(i=i, n=n, lo=lo, hi=hi):
            w.fresh()
            u = run()[1][i]
            c.le(lo, u, f'{n} command is at least {lo}')
            c.le(u, hi, f'{n} command is at most {hi}')
        c.ob(f'{n}/range', 'command within the physical range for every reference and feedback state', within, LL + 'low_level_controller:get_u_deg')

        def value(i=i, n=n, lo=lo, hi=hi):
            w.fresh()
            u = run()[1][i]
            raw = feedback(x, uref)[1][i]
            c.eq(u, clip(raw, lo, hi), f'{n} command is the limited trim + feedback')
        c.ob(f'{n}/value', 'command = linear feedback + trim, unchanged inside the range', value, LL + 'low_level_controller:get_u_deg')

        def custom(i=i, n=n):
            w.fresh()
            llc = controller(c)
            lims = vget(c, llc, 'ctrlLimits')
            a, b = tm.sym('lo_new'), tm.sym('hi_new')
            w.assume(tm.le0(a - b))
            c.returns(w.do(lambda: (w.it.setattr(lims, ULIM[i][0], num(a)), w.it.setattr(lims, ULIM[i][1], num(b)), None)[2]), 'setting limits')
            u = run(llc)[1]
            raw = feedback(x, uref)[1]
            for j in range(4):
                lo, hi = (a, b) if j == i else ULIM[j][2:]
                c.eq(u[j], clip(raw[j], lo, hi), f'{names[j]} command with {n} limits reconfigured', w.it.st.pc)
        c.ob(f'{n}/configured', 'a controller\'s own limits are the ones applied, channel by channel', custom, LL + 'low_level_controller:get_u_deg')

    def ctrlstate():
        w.fresh()
        got = run()[0]
        for k, (a, b) in enumerate(zip(got, feedback(x, uref)[0])):
            c.eq(a, b, f'controller state element {k}')
    c.ob('state', 'controller state is the perturbation from trim in controller order', ctrlstate, LL + 'low_level_controller:get_u_deg')

    def longer():
        w.fresh()
        got = run(n=19)
        for a, b in zip(got[1], feedback(x, uref)[1]):
            i = got[1].index(a)
            c.eq(a, clip(b, *ULIM[i][2:]), 'command from a longer state vector')
    c.ob('longer', 'extra state elements do not matter', longer, LL + 'low_level_controller:get_u_deg')

    def limits():
        w.fresh()
        o = c.returns(w.call(c.api(LL + 'low_level_controller.CtrlLimits')), 'CtrlLimits()')
        for lo, hi, a, b in ULIM:
            c.eq(vcells(c, o, lo)[0], a, lo)
            c.eq(vcells(c, o, hi)[0], b, hi)
        for n in [k for r in ULIM for k in r[:2]]:
            c.returns(w.do(lambda: w.it.setattr(o, n, num(T(3)))), f'{n} can be reconfigured')
    c.ob('limits', 'documented limits, reconfigurable', limits, LL + 'low_level_controller:CtrlLimits')

    def separate():
        w.fresh()
        one, two = controller(c), controller(c)
        lims = vget(c, one, 'ctrlLimits')
        for r in ULIM:
            for k in r[:2]:
                c.returns(w.do(lambda: w.it.setattr(lims, k, num(T(0)))), f'set {k}')
        u = run(two)[1]
        for i, (a, b) in enumerate(zip(u, feedback(x, uref)[1])):
            c.eq(a, clip(b, *ULIM[i][2:]), f'{names[i]} command of another controller')
    c.ob('separate', 'reconfiguring one controller leaves others alone', separate, LL + 'low_level_controller:LowLevelController')
    c.ob('gain', 'an unknown gain set is refused', lambda: c.raises(
        w.call(c.api(LL + 'low_level_controller.LowLevelController'), gain_str='new'), ['AssertionError', 'ValueError', 'KeyError'],
        'LowLevelController("new")'), LL + 'low_level_controller:LowLevelController')

    def integ():
        w.fresh()
        llc = controller(c)
        n = cells(c, c.returns(w.method(llc, 'get_num_integrators'), 'get_num_integrators'))
        c.eq(n[0], 3, 'number of integrators')
        nz, ps, ny = tm.sym('nz'), tm.sym('ps'), tm.sym('ny')
        d = cells(c, c.returns(w.method(llc, 'get_integrator_derivatives', w.arr(uref), num(nz), num(ps), num(ny)), 'get_integrator_derivatives'))
        for a, b, k in zip(d, (nz - uref[0], ps - uref[1], ny - uref[2]), ('Nz', 'ps', 'Ny+r')):
            c.eq(a, b, f'{k} integrator derivative')
        c.sure(len(d) == 3, 'three integrator derivatives')
    c.ob('integrators', 'integrators accumulate value minus reference', integ, LL + 'low_level_controller:get_integrator_derivatives')


# ---------------------------------------------------------------------- P28
TABLES = {'cx': 2, 'cy': 3, 'cz': 3, 'cl': 2, 'cm': 2, 'cn': 2, 'dlda': 2, 'dldr': 2, 'dnda': 2, 'dndr': 2, 'dampp': 1, 'thrust': 3, 'pdot': 2, 'tgear': 1,
          'adc': 2, 'morellif16.Morellif16': 13}
MULTI = {'dampp': 9, 'adc': 2, 'Morellif16': 6}


def opaque(name, args):
    """values of an aerodynamic / engine function left uninterpreted"""
    args = [T(a) for a in args]
    n = MULTI.get(name, 1)
    return [tm.fn(f'op_{name}_{i}', *args) for i in range(n)]


def hook_tables(c, only=None):
    """leave the table functions (decided by P26, P29, P31) uninterpreted"""
    it = c.w.it
    hits = set()
    for k, n in TABLES.items():
        path = k if '.' in k else f'{k}.{k}'
        short = path.split('.')[-1]
        f = c.w.get(LL + path)
        if not isinstance(f, VFunc):
            continue

        def h(i, fn, a, kw, short=short, n=n):
            if kw or len(a) != n:
                return NotImplemented
            ts = [c.w.cells(i.res(x)) for x in a]
            if any(t is None or len(t) != 1 for t in ts):
                return NotImplemented
            hits.add(short)
            r = opaque(short, [t[0] for t in ts])
            if short == 'dampp':
                return i.mkarr(r, (9,), 'float64')
            if len(r) == 1:
                return num(r[0])
            return VTuple([num(x) for x in r])
        it.hooks[f.qualname] = h
    return hits


NEEDED = {'stevens': {'cx', 'cy', 'cz', 'cl', 'cm', 'cn', 'dlda', 'dldr', 'dnda', 'dndr', 'dampp', 'thrust', 'pdot', 'tgear', 'adc'},
          'morelli': {'Morellif16', 'dampp', 'thrust', 'pdot', 'tgear', 'adc'}}


def plant_oracle(x, u, co, power_rate, thrust, qbar, adjust):
    """rigid-body equations over flat earth from the aerodynamic coefficients (damping included)"""
    S, b, cbar, rm, he, g = 300, 30, F('11.32'), F('1.57e-3'), 160, F('32.17')
    c1, c2, c3, c4, c5 = F('-.770'), F('.02755'), F('1.055e-4'), F('1.642e-6'), F('.9604')
    c6, c7, c8, c9 = F('1.759e-2'), F('1.792e-5'), F('-.7336'), F('1.587e-5')
    cx, cy, cz, cl, cm, cn = co
    vt, al, be, ph, th, ps, p, q, r = x[:9]
    sin, cos = (lambda t: tm.fn('sin', t)), (lambda t: tm.fn('cos', t))
    U, V, W = vt * cos(al) * cos(be), vt * sin(be), vt * sin(al) * cos(be)
    qs = qbar * S
    ax = rm * (qs * cx + thrust)
    ay, az = rm * qs * cy, rm * qs * cz
    ud = r * V - q * W - g * sin(th) + ax
    vd = p * W - r * U + g * cos(th) * sin(ph) + ay
    wd = q * U - p * V + g * cos(th) * cos(ph) + az
    dum = U * U + W * W
    xd = [None] * 13
    xd[0] = (U * ud + V * vd + W * wd) / vt
    xd[1] = (U * wd - W * ud) / dum
    xd[2] = (vt * vd - V * xd[0]) * cos(be) / dum
    xd[3] = p + sin(th) / cos(th) * (q * sin(ph) + r * cos(ph))
    xd[4] = q * cos(ph) - r * sin(ph)
    xd[5] = (q * sin(ph) + r * cos(ph)) / cos(th)
    xd[6] = (c2 * p + c1 * r + c4 * he) * q + qs * b * (c3 * cl + c4 * cn)
    xd[7] = (c5 * p - c7 * he) * r + c6 * (r * r - p * p) + qs * cbar * c7 * cm
    xd[8] = (c8 * p - c2 * r + c9 * he) * q + qs * b * (c4 * cl + c9 * cn)
    # body velocity through the yaw-pitch-roll rotation; altitude is up
    xd[9] = U * cos(th) * cos(ps) + V * (sin(ph) * sin(th) * cos(ps) - cos(ph) * sin(ps)) + W * (cos(ph) * sin(th) * cos(ps) + sin(ph) * sin(ps))
    xd[10] = U * cos(th) * sin(ps) + V * (sin(ph) * sin(th) * sin(ps) + cos(ph) * cos(ps)) + W * (cos(ph) * sin(th) * sin(ps) - sin(ph) * cos(ps))
    xd[11] = U * sin(th) - V * sin(ph) * cos(th) - W * cos(ph) * cos(th)
    xd[12] = power_rate
    AZ = az - 15 * xd[7]
    AY = ay + (15 * xd[8] if adjust else 0)
    return xd, [-AZ / g - 1, AY / g, AZ, AY]


def coefficients(model, x, u, f):
    """six coefficients with damping; f(name, args) gives the aerodynamic functions"""
    vt, al, be = x[0], x[1] * RTOD, x[2] * RTOD
    p, q, r = x[6:9]
    el, ail, rdr = u[1:]
    b, cbar, xcg, xref = 30, F('11.32'), F('.35'), F('.35')
    if model == 'stevens':
        cx, cy, cz = f('cx', [al, el])[0], f('cy', [be, ail, rdr])[0], f('cz', [al, be, el])[0]
        cl = f('cl', [al, be])[0] + f('dlda', [al, be])[0] * ail / 20 + f('dldr', [al, be])[0] * rdr / 30
        cm = f('cm', [al, el])[0]
        cn = f('cn', [al, be])[0] + f('dnda', [al, be])[0] * ail / 20 + f('dndr', [al, be])[0] * rdr / 30
    else:
        rad = PI / 180
        cx, cy, cz, cl, cm, cn = f('Morellif16', [al * rad, be * rad, el * rad, ail * rad, rdr * rad, p, q, r, cbar, b, vt, xcg, xref])
    d = f('dampp', [al])
    tv = F(1, 2) / vt
    cy = cy + b * tv * (d[1] * r + d[2] * p)
    cz = cz + cbar * q * tv * d[3]
    return [cx + cbar * q * tv * d[0], cy, cz, cl + b * tv * (d[4] * r + d[5] * p),
            cm + cbar * q * tv * d[6] + cz * (xref - xcg), cn + b * tv * (d[7] * r + d[8] * p) - cy * (xref - xcg) * cbar / b]


def real_tables(parts):
    """aerodynamic functions from the published tables inside one part of the argument space"""
    pa, pe, pl = parts['alpha'], parts['el'], parts
    rows = {n: D.table(getattr(D, n.upper())) for n in ('cx', 'cm', 'cl', 'cn', 'dlda', 'dldr', 'dnda', 'dndr', 'dampp')}

    def f(name, a):
        if name in ('cx', 'cm'):
            return [interp2(rows[name], pe, pa)]
        if name in ('dlda', 'dldr', 'dnda', 'dndr'):
            return [interp2(rows[name], parts['beta10'], pa)]
        if name in ('cl', 'cn'):
            return [interp2(rows[name], parts['beta5'], pa) * parts['bsign']]
        if name == 'cy':
            b, ail, rdr = a
            return [F('-.02') * b + F('.021') * ail / 20 + F('.086') * rdr / 30]
        if name == 'cz':
            _, b, el = a
            return [interp1(D.table(D.CZ)[0], pa) * (1 - (b / F('57.3')) ** 2) - F('.19') * el / 25]
        if name == 'dampp':
            return [interp1(r, pa) for r in rows['dampp']]
        raise KeyError(name)
    return f


XN = ['vt', 'alpha', 'beta', 'phi', 'theta', 'psi', 'p', 'q', 'r', 'pn', 'pe', 'alt', 'pow']
UN = ['throttle', 'elevator', 'aileron', 'rudder']


def plant_state(**over):
    x = [tm.sym('vt', 'pos')] + [tm.sym(n) for n in XN[1:]]
    u = [tm.sym(n) for n in UN]
    for k, v in over.items():
        (x if k in XN else u)[(XN if k in XN else UN).index(k)] = v
    return x, u


OUTS = [f'{n} rate' for n in ('airspeed', 'angle of attack', 'sideslip', 'roll', 'pitch', 'yaw', 'p', 'q', 'r', 'north', 'east', 'altitude', 'power')] + \
    ['Nz', 'Ny', 'az', 'ay']


def run_plant(c, x, u, model, adjust=None):
    w = c.w
    k = {} if adjust is None else {'adjust_cy': VBool(TRUE if adjust else FALSE)}
    out = w.call(c.api(LL + 'subf16_model.subf16_model'), w.arr(x), w.arr(u), model, **k)
    v = w.it.res(c.returns(out, f'subf16_model ({model})'))
    parts = [cells(c, p, 'subf16_model result') for p in w.it.iterate(v)]
    c.sure(len(parts) == 5 and len(parts[0]) == 13 and all(len(p) == 1 for p in parts[1:]),
           'subf16_model returns the 13 derivatives, Nz, Ny, az and ay')
    return parts[0] + [p[0] for p in parts[1:]]


def p28(c):
    w = c.world()
    cfgs = [(m, a) for m in ('stevens', 'morelli') for a in (None, True, False)]
    cache = {}

    def generic(model, adj):
        if (model, adj) not in cache:
            w.fresh()
            hits = hook_tables(c)
            x, u = plant_state()
            got = run_plant(c, x, u, model, adj)
            mach, qbar = opaque('adc', [x[0], x[11]])
            want = plant_oracle(x, u, coefficients(model, x, u, opaque), opaque('pdot', [x[12], opaque('tgear', [u[0]])[0]])[0],
                                opaque('thrust', [x[12], x[11], mach])[0], qbar, adj is not False)
            cache[model, adj] = got, want[0] + want[1], hits >= NEEDED[model]
        return cache[model, adj]

    alphas, els, b10 = axis('alpha', -2, 9), [p for p in axis('el', -2, 2) if '..' in p.label], [p for p in axis('bta', -3, 3) if '..' in p.label]

    def part(model, adj, n):
        """plant and required outputs on one part of the argument space, with the real functions"""
        if (model, adj, n) in cache:
            return cache[model, adj, n]
        pa, pe, j = alphas[n], els[n % len(els)], b10[n % 6].tag
        # sideslip within one half of the ten degree cell, where both table grids have a single cell
        pos = j + tm.bounded('bh', F(1, 10), F(2, 5))
        a5, k5 = (pos * 2, 2 * j) if j >= 0 else (-pos * 2, -2 * j - 1)
        parts = {'alpha': pa, 'el': pe, 'beta10': Part('', pos, -3, 3, j), 'beta5': Part('', a5, 0, 6, k5), 'bsign': 1 if j >= 0 else -1}
        h = 10000 * tm.bounded('hh', F(3, 2), F(19, 10))
        mach = tm.bounded('mm', F(9, 20), F(11, 20))
        vt = mach * tm.fn('sqrt', F('1.4') * F('1716.3') * 519 * (1 - F('.703e-5') * h))
        powr, thr = tm.bounded('pw', 55, 80), tm.bounded('th', F(1, 10), F(6, 10))
        x, u = plant_state(alpha=pa.pos * 5 / RTOD, beta=pos * 10 / RTOD, elevator=pe.pos * 12, alt=h, pow=powr, throttle=thr, vt=vt,
                           aileron=tm.bounded('ail_in', -20, 20), rudder=tm.bounded('rud_in', -28, 28))
        w.fresh()
        got = run_plant(c, x, u, model, adj)
        rt = real_tables(parts)

        def f(name, a):
            if name != 'Morellif16':
                return rt(name, a)
            return morelli_oracle([clip(t, lo * PI / 180, hi * PI / 180) for t, (_, lo, hi) in zip(a[:5], LIMITS)], *a[5:])
        ph, pm = Part('', h / 10000, 0, 5, 1), Part('', mach * 5, 0, 5, 2)
        mil, mx = [interp2(t, pm, ph) for t in (D.table(D.THRUST_MIL), D.table(D.THRUST_MAX))]
        cp = F('64.94') * thr
        rate = tm.ite(tm.le0(50 - cp), 5 * (cp - powr), 5 * (40 - powr))
        qbar = F('.5') * F('2.377e-3') * tm.fn('pow', 1 - F('.703e-5') * h, T(F('4.14'))) * vt * vt
        thrust = mil + (mx - mil) * (powr - 50) * F('.02')
        want = plant_oracle(x, u, coefficients(model, x, u, f), rate, thrust, qbar, adj is not False)
        cache[model, adj, n] = got, want[0] + want[1]
        return cache[model, adj, n]

    def concrete(model, adj, i, what):
        """the generic comparison failed: decide on parts of the argument space with the real functions"""
        ok = 0
        for n, pa in enumerate(alphas):
            try:
                got, want = part(model, adj, n)
                c.eq(got[i], want[i], what + f' (angle of attack {pa.label} x5 degrees)')
                ok += 1
            except (Undecided, tm.Undecided) as e:
                if 'budget' in str(e) or 'deadline' in str(e):
                    raise
        raise Undecided(f'{what}: not proved with the aerodynamic functions uninterpreted; equal on {ok} of {len(alphas)} parts of the argument space')

    for model, adj in cfgs:
        for i, o in enumerate(OUTS):
            def one(model=model, adj=adj, i=i, o=o):
                what = f'{o}, {model} model' + ('' if adj is None else f', adjust_cy={adj}')
                sure = None
                try:
                    got, want, same = generic(model, adj)
                    c.eq(got[i], want[i], what)
                    return
                except Violation as e:
                    # every aerodynamic and engine function is still called: the difference is the plant's own
                    sure = e if (model, adj) in cache and cache[model, adj][2] else None
                except (Undecided, tm.Undecided):
                    pass
                try:
                    concrete(model, adj, i, what)
                except (Undecided, tm.Undecided):
                    if sure is not None:
                        raise sure
                    raise
            c.ob(f'{model}/{"default" if adj is None else adj}/{o}', 'plant output = six-degree-of-freedom equations of motion', one, LL + 'subf16_model:subf16_model')

    def refuse(what, x, u, model):
        def r():
            w.fresh()
            c.raises(w.call(c.api(LL + 'subf16_model.subf16_model'), w.arr(x), w.arr(u), model), ['AssertionError', 'ValueError', 'KeyError'], what)
        return r
    x, u = plant_state()
    c.ob('refuse/model', 'an unknown aerodynamic model is refused', refuse('unknown model', x, u, 'other'), LL + 'subf16_model:subf16_model')
    c.ob('refuse/state', 'a state of the wrong length is refused', refuse('12 state elements', x[:12], u, 'stevens'), LL + 'subf16_model:subf16_model')
    c.ob('refuse/control', 'a control of the wrong length is refused', refuse('3 controls', x, u[:3], 'stevens'), LL + 'subf16_model:subf16_model')


# ---------------------------------------------------------------------- P30
def state16(**over):
    x, _ = plant_state(**over)
    return x + [tm.sym('int_nz'), tm.sym('int_ps'), tm.sym('int_ny')]


REFN = ['nz_ref', 'ps_ref', 'ny_ref', 'throttle_ref']


def closed_loop(c, x, uref, llc=None, **k):
    w = c.w
    out = w.call(c.api(AB + 'controlled_f16.controlled_f16'), w.arr(x), w.arr(uref), llc or controller(c), **k)
    v = w.it.res(c.returns(out, 'controlled_f16'))
    parts = [cells(c, p, 'controlled_f16 result') for p in w.it.iterate(v)]
    c.sure([len(p) for p in parts] == [len(x), 7, 1, 1, 1], f'controlled_f16 returns {len(x)} derivatives, 7 inputs, Nz, ps and Ny+r')
    return parts


def p30(c):
    w = c.world()
    x, uref = state16(), [tm.sym(n) for n in REFN]

    def setup(model, v2, given, n=16, lim=False):
        """closed-loop outputs and the required ones, from the same controller and plant functions"""
        w.fresh()
        hook_tables(c)
        xs = x + syms(n - 16, 'extra')
        k = {}
        if given:
            k['f16_model'] = model
        if v2 is not None:
            k['v2_integrators'] = VBool(TRUE if v2 else FALSE)
        llc = controller(c)
        if lim:
            lims = vget(c, llc, 'ctrlLimits')
            for r, (a, b) in zip(ULIM, (('ta', 'tb'), ('ea', 'eb'), ('aa', 'ab'), ('ra', 'rb'))):
                a, b = tm.sym(a), tm.sym(b)
                w.assume(tm.le0(a - b))
                c.returns(w.do(lambda: (w.it.setattr(lims, r[0], num(a)), w.it.setattr(lims, r[1], num(b)), None)[2]), 'setting limits')
        # the saturated command of the same controller (its own property is P25)
        ctl = w.it.res(c.returns(w.method(llc, 'get_u_deg', w.arr(uref), w.arr(xs)), 'get_u_deg'))
        d, u = [cells(c, p, 'get_u_deg result') for p in w.it.iterate(ctl)]
        got = closed_loop(c, xs, uref, llc, **k)
        plant = run_plant(c, xs[:13], u, model)
        nz, ny = plant[13], plant[14]
        if v2:
            cos, sin = tm.fn('cos', plant[1]), tm.fn('sin', plant[1])
            ps, nyr = plant[6] * cos + plant[8] * sin, ny + plant[8]
        else:
            ps, nyr = d[4] * tm.fn('cos', d[0]) + d[5] * tm.fn('sin', d[0]), ny + d[5]
        want = [plant[:13] + [nz - uref[0], ps - uref[1], nyr - uref[2]] + [T(0)] * (n - 16),
                [u[0]] + [t * PI / 180 for t in u[1:]] + uref[:3], [nz], [ps], [nyr]]
        return got, want, w.it.st.pc
    names = ['state derivative', 'input', 'Nz', 'ps', 'Ny+r']
    memo = {}

    def get(*k):
        if k not in memo:
            memo[k] = setup(*k)
        return memo[k]
    cfgs = [('stevens', False, True), ('stevens', True, True), ('morelli', False, True), ('morelli', True, True), ('morelli', None, False),
            ('stevens', None, True)]
    for model, v2, given in cfgs:
        lab = f'{model if given else "default model"}/{"v2" if v2 else "default" if v2 is None else "v1"} integrators'
        for g, n in enumerate(names):
            def one(g=g, n=n, a=(model, v2, given)):
                got, want, pc = get(*a)
                for i, (p, q) in enumerate(zip(got[g], want[g])):
                    c.eq(p, q, f'closed loop {n}[{i}]', pc)
            c.ob(f'{lab}/{n}', 'plant under the saturated command, integrators of the reported quantities, inputs in radians', one, AB + 'controlled_f16:controlled_f16')

    def custom():
        got, want, pc = get('stevens', False, True, 16, True)
        for g, n in enumerate(names):
            for i, (p, q) in enumerate(zip(got[g], want[g])):
                c.eq(p, q, f'closed loop {n}[{i}] with reconfigured limits', pc)
    c.ob('limits', 'the given controller\'s limits are the ones applied', custom, AB + 'controlled_f16:controlled_f16')

    def longer():
        got, want, pc = get('stevens', False, True, 18)
        for g, n in enumerate(names):
            for i, (p, q) in enumerate(zip(got[g], want[g])):
                c.eq(p, q, f'closed loop {n}[{i}] with two further states', pc)
    c.ob('longer', 'further states stay constant', longer, AB + 'controlled_f16:controlled_f16')
    for what, xs, us, k in (('three references', x, uref[:3], {}), ('unknown model', x, uref, {'f16_model': 'other'})):
        def refuse(xs=xs, us=us, k=k, what=what):
            w.fresh()
            c.raises(w.call(c.api(AB + 'controlled_f16.controlled_f16'), w.arr(xs), w.arr(us), controller(c), **k), ['AssertionError', 'ValueError'], what)
        c.ob(f'refuse/{what}', 'unusable arguments are refused', refuse, AB + 'controlled_f16:controlled_f16')


# ---------------------------------------------------------------------- P32
CONST = ['radgam', 'singam', 'rr', 'pr', 'tr', 'phi_c', 'cphi', 'sphi', 'thetadot', 'coord', 'stab']
TRIMMED = {1: 'steady level flight', 2: 'steady climb', 3: 'coordinated turn', 4: 'pull up'}


def constraints(x, k, orient):
    x = list(x)
    sin, cos = (lambda t: tm.fn('sin', t)), (lambda t: tm.fn('cos', t))
    if orient in (1, 2, 4):
        x[3] = k['phi_c']
        x[4] = x[1] + (k['radgam'] if orient == 2 else 0)
        x[6] = k['rr']
        x[7] = k['thetadot'] if orient == 4 else k['pr']
        x[8] = T(0)
    if orient == 3:
        x[6], x[7], x[8] = -k['tr'] * sin(x[4]), k['tr'] * cos(x[4]) * sin(x[3]), k['tr'] * cos(x[4]) * cos(x[3])
    return x


def cost_form(x, xd, k, orient):
    if orient == 1:
        return 100 * (xd[0] ** 2 + xd[1] ** 2 + xd[2] ** 2 + xd[6] ** 2 + xd[7] ** 2 + xd[8] ** 2)
    rot = xd[6] ** 2 + xd[7] ** 2 + xd[8] ** 2
    if orient == 2:
        return 500 * (xd[11] - x[0] * k['singam']) ** 2 + xd[0] ** 2 + 100 * (xd[1] ** 2 + xd[2] ** 2) + 10 * rot
    if orient == 3:
        return xd[0] ** 2 + 100 * (xd[1] ** 2 + xd[2] ** 2 + xd[11] ** 2) + 10 * rot + 500 * (xd[5] - k['tr']) ** 2
    return 500 * (xd[4] - k['thetadot']) ** 2 + xd[0] ** 2 + 100 * (xd[1] ** 2 + xd[2] ** 2) + 10 * rot


def p32(c):
    w = c.world()
    k = {n: tm.bounded(n, -1, 1) if n == 'singam' else tm.sym(n) for n in CONST}

    def const(orient):
        return VTuple([num(k[n]) for n in CONST] + [VNum(T(orient), 'int')])

    def plant_stub():
        """plant rates left uninterpreted (their own property is P28)"""
        f = c.api(LL + 'subf16_model.subf16_model')
        calls = []

        def h(i, fn, a, kw):
            xs, us = c.w.cells(i.res(a[0])), c.w.cells(i.res(a[1]))
            calls.append((i.st.pc, xs, us, [i.res(v) for v in a[2:]], {n: i.res(v) for n, v in kw.items()}))
            dot = [tm.sym(f'rate{n}') for n in range(13)]
            return VTuple([i.mkarr(dot, (13,), 'float64')] + [num(tm.sym(f'plant_{n}')) for n in range(4)])
        w.it.hooks[f.qualname] = h
        return calls

    def run(orient, full, *extra):
        w.fresh()
        x, u = plant_state()
        s = syms(7 if full else 3, 's')
        calls = plant_stub()
        xv, uv = w.arr(x), w.arr(u)
        a = [w.arr(s), xv, uv, const(orient)]
        r = cells(c, c.returns(w.call(c.api(LL + 'clf16.clf16'), *a, *extra), 'clf16'))
        xs, us = list(x), list(u)
        us[0], us[1] = s[0], s[1]
        if full:
            us[2], us[3] = s[2], s[3]
            xs[1], xs[3], xs[4] = s[4], s[5], s[6]
        else:
            xs[1] = s[2]
        # engine power from the throttle, then the flight-condition constraints
        h = w.it.hooks
        w.it.hooks = {}
        xs[12] = cells(c, c.returns(w.call(c.api(LL + 'tgear.tgear'), num(us[0])), 'tgear'))[0]
        w.it.hooks = h
        return r, constraints(xs, k, orient), us, calls, w.cells(xv), w.cells(uv)

    def rates(orient):
        d = [tm.sym(f'rate{n}') for n in range(13)]
        return d
    for orient, lab in TRIMMED.items():
        for full in (False, True):
            key = f'{lab}/{"7" if full else "3"} unknowns'
            memo = {}

            def get(memo=memo, orient=orient, full=full):
                if 'r' not in memo:
                    memo['r'] = run(orient, full)
                return memo['r']

            def cost(get=get, orient=orient, lab=lab):
                r, xs, us, calls, _, _ = get()
                raw = cost_form(xs, rates(orient), k, orient)
                c.sure(len(r) == 1, 'scalar cost')
                c.eq(r[0], tm.ite(tm.lt0(raw - 1), tm.fn('sqrt', raw), raw), f'trim cost, {lab}')
            c.ob(f'{key}/cost', 'cost = weighted squares of the residual rates, square-rooted below one', cost, LL + 'clf16:clf16')

            def nonneg(get=get, lab=lab):
                c.le(0, get()[0][0], f'trim cost is not negative, {lab}')
            c.ob(f'{key}/nonneg', 'cost is never negative', nonneg, LL + 'clf16:clf16')

            def point(get=get, lab=lab):
                r, xs, us, calls, _, _ = get()
                c.sure(len(calls) == 1, 'the plant is evaluated once')
                for i, (a, b) in enumerate(zip(calls[0][1], xs)):
                    c.eq(a, b, f'{XN[i]} handed to the plant, {lab}')
                for i, (a, b) in enumerate(zip(calls[0][2], us)):
                    c.eq(a, b, f'{UN[i]} handed to the plant, {lab}')
            c.ob(f'{key}/point', 'the plant is evaluated at the candidate point under the flight-condition constraints', point, LL + 'clf16:clf16')

            def inplace(get=get, lab=lab):
                r, xs, us, calls, x1, u1 = get()
                for i, (a, b) in enumerate(zip(x1, xs)):
                    c.eq(a, b, f'{XN[i]} left in the caller\'s state, {lab}')
                for i, (a, b) in enumerate(zip(u1, us)):
                    c.eq(a, b, f'{UN[i]} left in the caller\'s control, {lab}')
            c.ob(f'{key}/in place', 'state and control are left at the candidate point', inplace, LL + 'clf16:clf16')

        def variant(orient=orient, lab=lab):
            for extra, model, cy in (((), 'stevens', True), (('stevens', VBool(tm.FALSE)), 'stevens', False),
                                     (('morelli', VBool(tm.TRUE)), 'morelli', True), (('morelli', VBool(tm.FALSE)), 'morelli', False)):
                calls = run(orient, True, *extra)[3]
                c.sure(len(calls) == 1, 'the plant is evaluated once')
                a, kw = calls[0][3:]
                m = a[0] if a else kw.get('model', 'stevens')
                c.sure(m == model, f'trim of the {model} plant evaluates the {m} plant, {lab}', calls[0][0])
                y = a[1] if len(a) > 1 else kw.get('adjust_cy', VBool(tm.TRUE))
                c.true(w.it.truth(y) if cy else c_not(w.it.truth(y)), f'centre-of-gravity adjustment flag handed to the plant, {lab}')
        c.ob(f'{lab}/variant', 'the plant variant named by the caller is the one trimmed', variant, LL + 'clf16:clf16')

        def conf(orient=orient, lab=lab):
            w.fresh()
            x, u = plant_state()
            xv, uv = w.arr(x), w.arr(u)
            v = w.it.res(c.returns(w.call(c.api(LL + 'conf16.conf16'), xv, uv, const(orient)), 'conf16'))
            p = [cells(c, t, 'conf16 result') for t in w.it.iterate(v)]
            want = constraints(x, k, orient)
            want[12] = cells(c, c.returns(w.call(c.api(LL + 'tgear.tgear'), num(u[0])), 'tgear'))[0]
            c.sure(len(p) == 2 and len(p[0]) == 13 and len(p[1]) == 4, 'conf16 returns state and control')
            for i, (a, b) in enumerate(zip(p[0], want)):
                c.eq(a, b, f'{XN[i]} under the constraints of {lab}')
            for i, (a, b) in enumerate(zip(p[1], u)):
                c.eq(a, b, f'{UN[i]} under the constraints of {lab}')
        c.ob(f'{lab}/constraints', 'constrained state of the flight condition; control untouched', conf, LL + 'conf16:conf16')


# ---------------------------------------------------------------------- P27
def p27(c):
    from .history import scribble
    w = c.world()

    def pure(fn, mk1, mk2, what, args_kept=True, hooks=True):
        """fn(args1), fn(args2), fn(args1): arguments kept, first and last result equal although every result was overwritten"""
        def r():
            w.fresh()
            if hooks:
                hook_tables(c)
            f = fn()
            first = None
            for turn, mk in enumerate((mk1, mk2, mk1)):
                args = mk()
                before = [w.cells(w.it.res(a)) if not isinstance(a, str) else None for a in args]
                v = w.it.res(c.returns(w.call(f, *args), what))
                res = result(v)
                for a, b in zip(args, before):
                    if b is not None and args_kept:
                        for p, q in zip(w.cells(w.it.res(a)), b):
                            c.eq(p, q, f'{what}: argument element after the call')
                if turn == 0:
                    first = res
                    early = v
                    continue
                if turn == 1:
                    for p, q in zip(result(early), first):
                        c.eq(p, q, f'{what}: an earlier result after another call')
                    wipe(early)
                elif turn == 2:
                    c.sure(len(res) == len(first), f'{what}: repeated call returns a different shape')
                    for p, q in zip(res, first):
                        c.eq(p, q, f'{what}: repeated call')
                wipe(v)
                for a, b in zip(args, before):
                    if b is not None and args_kept:
                        for p, q in zip(w.cells(w.it.res(a)), b):
                            c.eq(p, q, f'{what}: argument element after the result was overwritten')
        return r

    def result(v):
        v = w.it.res(v)
        if isinstance(v, VTuple) or isinstance(v, VRef):
            return [t for x in w.it.iterate(v) for t in result(x)]
        return cells(c, v, 'result')

    def wipe(v):
        v = w.it.res(v)
        if isinstance(v, VTuple):
            for x in w.it.iterate(v):
                wipe(x)
        else:
            scribble(c, v)

    def pl(pre, model, adj=None):
        def mk():
            x = [tm.sym(pre + 'vt', 'pos')] + [tm.sym(pre + n) for n in XN[1:]]
            return [w.arr(x), w.arr([tm.sym(pre + n) for n in UN]), model] + ([] if adj is None else [VBool(TRUE if adj else FALSE)])
        return mk
    for model in ('stevens', 'morelli'):
        c.ob(f'subf16/{model}', 'plant evaluation keeps its arguments and is repeatable', pure(lambda: c.api(LL + 'subf16_model.subf16_model'), pl('a', model), pl('b', model), f'subf16_model ({model})'),
             LL + 'subf16_model:subf16_model')
        for a1, a2 in ((True, False), (False, True), (False, False)):
            c.ob(f'subf16/{model}/{"adjusted" if a1 else "plain"} then {"adjusted" if a2 else "plain"}', 'plant evaluation keeps its arguments and is repeatable for either side acceleration',
                 pure(lambda: c.api(LL + 'subf16_model.subf16_model'), pl('a', model, a1), pl('b', model, a2), f'subf16_model ({model}, adjust_cy={a1} then {a2})'),
                 LL + 'subf16_model:subf16_model')

    def ctl():
        holder = {}

        def f():
            holder['c'] = controller(c)
            return w.it.getattr(holder['c'], 'get_u_deg')

        def mk(pre):
            return lambda: [w.arr(syms(4, pre + 'ref')), w.arr(syms(16, pre + 'x'))]
        pure(f, mk('a'), mk('b'), 'get_u_deg')()
    c.ob('get_u_deg', 'controller keeps its arguments and is repeatable', ctl, LL + 'low_level_controller:get_u_deg')

    def integ():
        def f():
            return w.it.getattr(controller(c), 'get_integrator_derivatives')

        def mk(pre):
            return lambda: [w.arr(syms(4, pre + 'ref'))] + [num(tm.sym(pre + n)) for n in ('nz', 'ps', 'ny')]
        pure(f, mk('a'), mk('b'), 'get_integrator_derivatives')()
    c.ob('get_integrator_derivatives', 'integrator derivatives keep their arguments', integ, LL + 'low_level_controller:get_integrator_derivatives')
    for model in ('stevens', 'morelli'):
        for v2 in (False, True):
            def loop(model=model, v2=v2):
                llc = {}

                def f():
                    llc['c'] = controller(c)
                    return c.api(AB + 'controlled_f16.controlled_f16')

                def mk(pre):
                    return lambda: [w.arr([tm.sym(pre + 'vt', 'pos')] + syms(15, pre + 'x')), w.arr(syms(4, pre + 'ref')), llc['c'], model, VBool(TRUE if v2 else FALSE)]
                pure(f, mk('a'), mk('b'), f'controlled_f16 ({model})')()
            c.ob(f'controlled_f16/{model}/{"v2" if v2 else "v1"}', 'closed loop keeps its arguments and is repeatable', loop, AB + 'controlled_f16:controlled_f16')

    def separate():
        w.fresh()
        one = controller(c)
        x, u = w.arr(syms(16, 'x')), w.arr(syms(4, 'ref'))
        a = result(c.returns(w.method(one, 'get_u_deg', u, x), 'get_u_deg'))
        two = controller(c)
        b = result(c.returns(w.method(two, 'get_u_deg', u, x), 'get_u_deg'))
        for p, q in zip(a, b):
            c.eq(p, q, 'a second controller gives the same commands')
    c.ob('controllers', 'controllers agree', separate, LL + 'low_level_controller:LowLevelController')
    # lookups: two arguments in the same cell, then the first again
    f1, f2 = tm.bounded('first', 0, 1, True, True), tm.bounded('second', 0, 1, True, True)
    unit = {'cx': [5, 12], 'cm': [5, 12], 'cl': [5, 5], 'cn': [5, 5], 'dlda': [5, 10], 'dldr': [5, 10], 'dnda': [5, 10], 'dndr': [5, 10], 'dampp': [5],
            'cz': [5, 5, 5], 'cy': [5, 5, 5]}
    for n, us in unit.items():
        for base in (-2, 1, 8):
            bs = [base, 1, 1]

            def mk(f, us=us, bs=bs):
                return lambda: [num((b + f) * s) for b, s in zip(bs, us)]
            c.ob(f'{n}/alpha {base}', 'lookup is repeatable', pure(lambda n=n: c.api(LL + f'{n}.{n}'), mk(f1), mk(f2), n, hooks=False), LL + f'{n}:{n}')
    th = lambda f: (lambda: [num(f * 40), num((1 + f) * 10000), num((2 + f) / 5)])
    c.ob('thrust', 'lookup is repeatable', pure(lambda: c.api(LL + 'thrust.thrust'), th(f1), th(f2), 'thrust', hooks=False), LL + 'thrust:thrust')
    for n, k in (('tgear', 1), ('rtau', 1), ('pdot', 2), ('adc', 2)):
        c.ob(n, 'engine and atmosphere functions are repeatable',
             pure(lambda n=n: c.api(LL + f'{n}.{n}'), lambda k=k: [num(t) for t in syms(k, 'a')], lambda k=k: [num(t) for t in syms(k, 'b')], n, hooks=False), LL + f'{n}:{n}')
    mo = lambda pre: (lambda: [num(tm.bounded(f'{pre}{i}', F(-1, 10), F(1, 10))) for i in range(5)] + [num(tm.sym(f'{pre}{i}', 'pos')) for i in range(5, 13)])
    c.ob('Morellif16', 'the polynomial model is repeatable', pure(lambda: c.api(LL + 'morellif16.Morellif16'), mo('a'), mo('b'), 'Morellif16', hooks=False),
         LL + 'morellif16:Morellif16')
