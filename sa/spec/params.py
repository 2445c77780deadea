"""P22 constructor parameters, P23 equality, P24 relative queries and registration, P36 number_list_to_np."""
from __future__ import annotations

from . import common as _c
from .common import *
from .control import Probe
from .models import P, SIN, COS, cw, rotmat, inertia, unit_quat, unlimit, qmul_rate, rate
from .stepping import Sys, linear, entity_sys, dstep, wrap
from .history import construct, s0, props, peek, view, same, newstate, jaxes, try_ob

NUM = lambda t: VNum(T(t), 'float')


class Cfg:
    """one parametrised model: constructor arguments, documented derivative and limits"""

    def __init__(self, kw, f, n, lim=None, dlim=None, cmin=None, cmax=None):
        self.kw, self.f, self.n = kw, f, n
        self.lim, self.dlim, self.cmin, self.cmax = lim or {}, dlim or {}, cmin, cmax


def rot2d(c, direct=False):
    t = {k: P(k) for k in ('m', 'inertia', 'ang_acc_limit', 'ang_vel_limit', 'n')}
    if not direct:
        t.update({k: P(k) for k in ('inertia_wheel', 'acc_limit_wheel', 'vel_limit_wheel')})
        acc = tm.tmin(t['ang_acc_limit'], t['inertia_wheel'] * t['acc_limit_wheel'] / t['inertia'])
        vel = tm.tmin(t['ang_vel_limit'], t['inertia_wheel'] * t['vel_limit_wheel'] / t['inertia'])
    else:
        acc, vel = t['ang_acc_limit'], t['ang_vel_limit']

    def f(s, u):
        a = cw(t['n'], s[0:2], s[3:5])
        F_ = [COS(s[2]) * u[0] - SIN(s[2]) * u[1], SIN(s[2]) * u[0] + COS(s[2]) * u[1]]
        return [s[3], s[4], s[5], a[0] + F_[0] / t['m'], a[1] + F_[1] / t['m'], u[2] / t['inertia']]
    M = acc * t['inertia']
    return Cfg({k: NUM(v) for k, v in t.items()}, f, 6, {5: (-vel, vel)}, {2: (-vel, vel), 5: (-acc, acc)}, [T(-1), T(-1), -M], [T(1), T(1), M])


def sixdof(c, form='list', kind='matrix', body=True, direct=False):
    t = {k: P(k) for k in ('m', 'n')}
    I = [P('I1'), P('I2'), P('I3')]
    kw = {k: NUM(v) for k, v in t.items()}
    kw['inertia_matrix'] = inertia(c, I, kind)
    if form == 'scalar':
        A, V = [P('acc')] * 3, [P('vel')] * 3
        kw['ang_acc_limit'], kw['ang_vel_limit'] = NUM(A[0]), NUM(V[0])
    else:
        A, V = [P(f'acc{i}') for i in range(3)], [P(f'vel{i}') for i in range(3)]
        mkv = (lambda x: c.w.list([NUM(y) for y in x])) if form == 'list' else c.w.arr
        kw['ang_acc_limit'], kw['ang_vel_limit'] = mkv(A), mkv(V)
    kw['body_frame_thrust'] = body
    if not direct:
        tc, iw, aw, vw = P('thrust_limit'), P('inertia_wheel'), P('acc_limit_wheel'), P('vel_limit_wheel')
        kw.update(thrust_control_limit=NUM(tc), inertia_wheel=NUM(iw), acc_limit_wheel=NUM(aw), vel_limit_wheel=NUM(vw))
        A = [tm.tmin(a, iw * aw / i) for a, i in zip(A, I)]
        V = [tm.tmin(v, iw * vw / i) for v, i in zip(V, I)]
        top = [tc] * 3 + [a * i for a, i in zip(A, I)]
    else:
        top = None

    def f(s, u):
        a = cw(t['n'], s[0:3], s[7:10])
        R = rotmat(s[3:7]) if body else [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        F_ = [sum((R[i][j] * u[j] for j in range(3)), T(0)) for i in range(3)]
        w = s[10:13]
        e = [((I[1] - I[2]) * w[1] * w[2] + u[3]) / I[0], ((I[2] - I[0]) * w[2] * w[0] + u[4]) / I[1], ((I[0] - I[1]) * w[0] * w[1] + u[5]) / I[2]]
        return s[7:10] + qmul_rate(s[3:7], w) + [a[i] + F_[i] / t['m'] for i in range(3)] + e
    return Cfg(kw, f, 13, {10 + i: (-V[i], V[i]) for i in range(3)}, {}, [-x for x in top] if top else None, top)


def dubins(c, k3):
    lo = lambda n: tm.sym(n)
    up = lambda n: tm.sym(n) + tm.sym(n + '_gap', 'pos')
    kw, lim = {}, {}

    def pair(name, a, b, pos=False):
        x = tm.sym(name, 'pos') if pos else tm.sym(name)
        y = x + tm.sym(name + '_gap', 'pos')
        kw[a], kw[b] = NUM(x), NUM(y)
        return x, y
    v = pair('v', 'v_min', 'v_max', True)
    acc = pair('acc', 'acceleration_control_min', 'acceleration_control_max')
    if not k3:
        hr = pair('hr', 'heading_rate_control_min', 'heading_rate_control_max')
        return Cfg(kw, lambda s, u: [s[3] * COS(s[2]), s[3] * SIN(s[2]), u[0], u[1]], 4, {3: v}, {}, [hr[0], acc[0]], [hr[1], acc[1]])
    ga, ro = pair('ga', 'gamma_min', 'gamma_max'), pair('ro', 'roll_min', 'roll_max')
    gr, rr = pair('gr', 'gamma_rate_control_min', 'gamma_rate_control_max'), pair('rr', 'roll_rate_control_min', 'roll_rate_control_max')
    g = T(F('32.17'))

    def f(s, u):
        h, p, r, vv = s[3:7]
        return [vv * COS(h) * COS(p), vv * SIN(h) * COS(p), -vv * SIN(p), g / vv * SIN(r) / COS(r), u[0], u[1], u[2]]
    return Cfg(kw, f, 7, {4: ga, 5: ro, 6: v}, {}, [gr[0], rr[0], acc[0]], [gr[1], rr[1], acc[1]])


def point(c, k):
    m, n = P('m'), P('n')
    return Cfg({'m': NUM(m), 'n': NUM(n)}, lambda s, u: s[3:6] + [a + x / m for a, x in zip(cw(n, s[:3], s[3:6]), u)], 6, {}, {}, [T(-1)] * 3, [T(1)] * 3)


def integ(c, k):
    m, b = P('m'), tm.sym('damping', 'nonneg')
    return Cfg({'m': NUM(m), 'damping': NUM(b)}, lambda s, u: s[k:] + [x / m - b * v for x, v in zip(u, s[k:])], 2 * k, {}, {}, [T(-1)] * k, [T(1)] * k)


def sun(c):
    n = tm.sym('sun_rate')
    return Cfg({'n': NUM(n)}, lambda s, u: [n], 1)


def subjects(c):
    """(key, entity, whether the dynamics class is built directly, builder)"""
    out = [(f'{k}d', BY[f'Integrator{k}d'], False, lambda k=k: integ(c, k)) for k in (1, 2, 3)]
    out += [(f'dyn{k}d', BY[f'Integrator{k}d'], True, lambda k=k: integ(c, k)) for k in (1, 2, 3)]
    out += [('point', BY['CWHSpacecraft'], d, lambda: point(c, 3)) for d in (False, True)]
    for jx in (False, True):
        for d in (False, True):
            def mk(jx=jx, d=d):
                g = rot2d(c, d)
                if jx:
                    g.kw['use_jax'] = True
                return g
            out.append(('rot2d' + ('/jax' if jx else ''), BY['CWHRotation2dSpacecraft'], d, mk))
    for form in ('list', 'array', 'scalar'):
        for kind, body in (('matrix', True), ('array', False)):
            for d in (False, True):
                out.append((f'sixdof/{form}/{kind}/{"body" if body else "hill"}', BY['SixDOFSpacecraft'], d,
                            lambda form=form, kind=kind, body=body, d=d: sixdof(c, form, kind, body, d)))
    out += [('sun', BY['SunEntity'], d, lambda: sun(c)) for d in (False, True)]
    out += [('dubins2d', BY['Dubins2dAircraft'], False, lambda: dubins(c, False)), ('dubins3d', BY['Dubins3dAircraft'], False, lambda: dubins(c, True))]
    return out


def build(c, e, direct, g):
    """the parametrised dynamics object (and entity)"""
    if direct:
        return None, dyn(c, e, **g.kw)
    kw = dict(g.kw)
    o = construct(c, e, **kw)
    return o, vget(c, o, 'dynamics')


def as_sys(c, e, d, g, s):
    n = g.n
    y = Sys(d, n, len(e.controls), [None] * n, [None] * n, [None] * n, [None] * n, [None] * n, 'use_jax' in g.kw, 'Euler', s)
    for i, (a, b) in g.lim.items():
        y.lo[i], y.hi[i] = T(a), T(b)
    for i, (a, b) in g.dlim.items():
        y.dlo[i], y.dhi[i] = T(a), T(b)
    for i in e.wrap:
        y.ctr[i] = T(0)
    return y


def states(e):
    s = _c.s0(e)
    if e.quat:
        for i, q in zip(e.quat, unit_quat()):
            s[i] = q
    return s


def p22(c):
    for key, e, direct, mk in subjects(c):
        tag = f'{"dynamics" if direct else "entity"}/{key}'
        c.world(True)

        def eqs(e=e, direct=direct, mk=mk, tag=tag):
            g = mk()
            o, d = build(c, e, direct, g)
            unlimit(c, d)
            s, u = states(e), syms(len(e.controls), 'u')
            got = rate(c, d, s, u, 'use_jax' in g.kw)
            for i, (x, y) in enumerate(zip(got, g.f(s, u))):
                c.eq(x, y, f'{tag}: d{e.slots[i]}/dt with every parameter set')
        c.ob(f'{tag}/equations', 'the documented equations with every parameter at its place', eqs, e.dyn)
        if g_lim(e):
            c.world(True)

            def lims(e=e, direct=direct, mk=mk, tag=tag):
                g = mk()
                o, d = build(c, e, direct, g)
                s, u = states(e), syms(len(e.controls), 'u')
                y = as_sys(c, e, d, g, s)
                raw = g.f(s, u)
                got = derivative(c, d, s, u, jx='jax' if y.jx else None)[0]
                for i in range(g.n):
                    if i in g.lim or i in g.dlim:
                        c.eq(got[i], y.rate_limit(raw[i], s[i], i), f'{tag}: limited d{e.slots[i]}/dt')
                    else:
                        c.eq(got[i], raw[i], f'{tag}: d{e.slots[i]}/dt has no limit')
            c.ob(f'{tag}/rate-limits', 'rate limits are the documented formulas of the parameters', lims, e.dyn)
            c.world(True)

            def box(e=e, direct=direct, mk=mk, tag=tag):
                g = mk()
                k = dict(g.kw)
                g.kw['integration_method'] = 'Euler'
                o, d = build(c, e, direct, g)
                s, u = states(e), syms(len(e.controls), 'u')
                y = as_sys(c, e, d, g, s)
                y.u = u
                y.sdt = 'float32' if y.jx else 'float64'
                der = derivative(c, d, s, u, t=T(0), jx='jax' if y.jx else None)[0]
                nxt, _ = dstep(c, y, DT(), f'{tag}: Euler step')
                for i in g.lim:
                    x = s[i] + DT() * der[i]
                    c.eq(nxt[i], y.settle(x, i) if direct is False or not e.wrap else nxt[i], f'{tag}: limited next {e.slots[i]}')
            if key.startswith('sixdof/list/matrix') or not key.startswith('sixdof'):
                c.ob(f'{tag}/state-limits', 'state limits are the documented formulas of the parameters', box, e.dyn)
        if not direct and e.controls:
            c.world(True)

            def ctl(e=e, mk=mk, tag=tag):
                g = mk()
                o, d = build(c, e, False, g)
                pr = Probe(c, e, o)
                u = syms(len(e.controls), 'u')
                c.returns(step(c, o, DT(), action(c, 'array', u)), f'{tag}: step')
                for i, x in enumerate(pr.one(c, tag)):
                    c.eq(x, clip(u[i], g.cmin[i], g.cmax[i]), f'{tag}: applied {e.controls[i]}')
            c.ob(f'{tag}/control-limits', 'actuator limits are the documented formulas of the parameters', ctl, e.path)
    overrides(c)
    methods(c)
    # two differently configured entities keep their own parameters
    for key, e, direct, mk in subjects(c):
        if direct or 'jax' in key:
            continue
        c.world(True)

        def two(e=e, mk=mk, key=key):
            g = mk()
            o, d = build(c, e, False, g)
            p = construct(c, e, name='other')
            q = vget(c, p, 'dynamics')
            unlimit(c, d)
            s, u = states(e), syms(len(e.controls), 'u')
            for i, (x, y) in enumerate(zip(rate(c, d, s, u), g.f(s, u))):
                c.eq(x, y, f'{key}: d{e.slots[i]}/dt after a default entity was built')
            if e.controls:
                pr = Probe(c, e, p)
                c.returns(step(c, p, DT(), action(c, 'array', u)), f'{key}: step of the default entity')
                for i, x in enumerate(pr.one(c, key)):
                    c.eq(x, clip(u[i], e.cmin[i], e.cmax[i]), f'{key}: {e.controls[i]} applied by a default entity built after a configured one')
        c.ob(f'entity/{key}/independent', 'parameters of one entity do not reach another', two, e.path)
    # finding: an accepted limit without effect
    for form in ('array', ):
        c.world(True)

        def acc(form=form):
            g = sixdof(c, form, 'matrix', True, True)
            d = dyn(c, BY['SixDOFSpacecraft'], **g.kw)
            s, u = states(BY['SixDOFSpacecraft']), syms(6, 'u')
            got, _ = derivative(c, d, s, u)
            for i in range(3):
                c.le(got[10 + i], P(f'acc{i}' if form == 'array' else 'acc'), f'SixDOFDynamics: dw{"xyz"[i]}/dt against ang_acc_limit')
        c.ob(f'dynamics/sixdof/ang_acc_limit/{form}', 'the angular acceleration limit bounds the angular acceleration', acc, 'cwh.sixdof_model.SixDOFDynamics')


def g_lim(e):
    return bool(e.lim or e.dlim)


def overrides(c):
    """explicit limits and wrap centres given to a dynamics class replace its defaults"""
    for e in ENTITIES:
        kws = ['state_min', 'state_max'] + (['angle_wrap_centers'] if e.key != 'SunEntity' else [])
        if e.key != 'SixDOFSpacecraft':
            kws += ['state_dot_min', 'state_dot_max']
        else:
            kws += ['state_dot_min', 'state_dot_max']
        for jx in jaxes(e):
            c.world(True)

            def ob(e=e, kws=kws, jx=jx):
                n = e.n
                lo = [tm.sym(f'lo{i}') for i in range(n)]
                hi = [lo[i] + tm.sym(f'gap{i}', 'pos') for i in range(n)]
                dlo = [-tm.sym(f'dlo{i}', 'nonneg') for i in range(n)]
                dhi = [tm.sym(f'dhi{i}', 'nonneg') for i in range(n)]
                kw = {'state_min': c.w.arr(lo), 'state_max': c.w.arr(hi), 'state_dot_min': c.w.arr(dlo), 'state_dot_max': c.w.arr(dhi)}
                d = dyn(c, e, jx, integration_method='Euler', **kw)
                s, u = states(e), syms(len(e.controls), 'u')
                y = Sys(d, n, len(u), lo, hi, dlo, dhi, [None] * n, jx, 'Euler', s)
                raw = dyn(c, e, jx)
                unlimit(c, raw)
                f = derivative(c, raw, s, u, jx='jax' if jx else None)[0]
                got = derivative(c, d, s, u, jx='jax' if jx else None)[0]
                for i in range(n):
                    c.eq(got[i], y.rate_limit(f[i], s[i], i), f'{e.dyn}: d{e.slots[i]}/dt under explicit limits')
            c.ob(f'dynamics/{e.key}{"/jax" if jx else ""}/explicit-limits', 'explicitly given limits are the ones applied', ob, e.dyn)
            c.world(True)

            def ob2(e=e, jx=jx):
                n = e.n
                on = {0, n - 1} if e.quat else set(range(n))
                lo = [tm.sym(f'lo{i}') if i in on else -tm.INF for i in range(n)]
                hi = [lo[i] + tm.sym(f'gap{i}', 'pos') if i in on else tm.INF for i in range(n)]
                ctr = [tm.sym('ctr') if i == n - 1 else None for i in range(n)]
                d = dyn(c, e, jx, integration_method='Euler', state_min=c.w.arr(lo), state_max=c.w.arr(hi),
                        angle_wrap_centers=c.w.arr([x if x is not None else tm.NAN for x in ctr]))
                s, u = states(e), syms(len(e.controls), 'u')
                y = Sys(d, n, len(u), lo, hi, [None] * n, [None] * n, ctr, jx, 'Euler', s)
                y.u, y.sdt = u, 'float32' if jx else 'float64'
                f = derivative(c, d, s, u, t=T(0), jx='jax' if jx else None)[0]
                nxt, _ = dstep(c, y, DT(), f'{e.dyn}: Euler step')
                for i in ([0, n - 1] if e.quat else sorted({0, n // 2, n - 1})):
                    c.eq(nxt[i], y.settle(s[i] + DT() * f[i], i), f'{e.dyn}: next {e.slots[i]} under explicit limits')
            c.ob(f'dynamics/{e.key}{"/jax" if jx else ""}/explicit-box', 'explicitly given state limits and wrap centres are the ones applied', ob2, e.dyn)


def methods(c):
    """integration method and sample count reach the solver"""
    for e in ENTITIES:
        for via in ('entity', 'dynamics'):
            for m_ in e.methods:
                c.world(True)

                def ob(e=e, via=via, m_=m_):
                    kw = method_kw(e, m_)
                    d = vget(c, construct(c, e, **kw), 'dynamics') if via == 'entity' else dyn(c, e, **kw)
                    y = Sys(d, e.n, len(e.controls), *[[None] * e.n] * 5, m_ == 'RK45_JAX', m_, states(e))
                    y.sdt = 'float32' if y.jx else 'float64'
                    lg = len(c.w.it.log)
                    dstep(c, y, DT(), f'{e.key}: {m_} step')
                    evs = [x['kind'] for x in c.w.it.log[lg:] if x['kind'] in ('solve_ivp', 'odeint')]
                    want = {'RK45': ['solve_ivp'], 'RK45_JAX': ['odeint'], 'Euler': []}[m_]
                    c.sure(evs == want, f'{e.key} ({via}) asked for {m_} integrates with {evs or "a single Euler update"}')
                c.ob(f'{via}/{e.key}/method/{m_}', 'the requested integration method is the one used', ob, e.dyn)
            if e.samples or via == 'dynamics':
                for n in (1, 4):
                    c.world(True)

                    def smp(e=e, via=via, n=n):
                        d = vget(c, construct(c, e, trajectory_samples=n), 'dynamics') if via == 'entity' else dyn(c, e, trajectory_samples=n)
                        y = Sys(d, e.n, len(e.controls), *[[None] * e.n] * 5, False, 'RK45', states(e))
                        dstep(c, y, DT(), f'{e.key}: step')
                        v = c.w.it.res(vget(c, d, 'trajectory'))
                        c.sure(isinstance(v, VArr) and tuple(v.shape) == (n, e.n), f'{e.key}: {n} samples requested, trajectory has shape {getattr(v, "shape", None)}')
                    c.ob(f'{via}/{e.key}/samples/{n}', 'the requested number of samples is stored', smp, e.dyn)


# ---------------------------------------------------------------------- P23
def eqcond(c, a, b, op='Eq'):
    it = c.w.it
    out = c.w.do(lambda: it.compare(op, a, b))
    v = c.returns(out, 'comparison')
    t = it.truth(v)
    return t


GROUPS = {'position': ('x', 'y', 'z'), 'velocity': ('x_dot', 'y_dot', 'z_dot', 'v'), 'rates': ('wx', 'wy', 'wz'), 'attitude': ('heading', 'gamma', 'roll')}


FAMILIES = {'Integrator': 'integrators.BaseIntegrator', 'Dubins': 'dubins.BaseDubinsAircraft'}


def family(c, e):
    """public base classes of an entity that define a comparison"""
    for p, b in FAMILIES.items():
        if e.key.startswith(p) and c.w.get(b) is not None and isinstance(c.w.it.res(c.w.attr(c.w.get(b), '__eq__').value), VFunc):
            return [b]
    return []


def p23(c):
    for e in ENTITIES:
        for jx in jaxes(e):
            kw = {'use_jax': True} if jx else {}
            tag = f'{e.key}{"/jax" if jx else ""}'
            c.world(True)

            def equal(e=e, kw=kw, tag=tag):
                a, b = construct(c, e, name='a', **kw), construct(c, e, name='b', **kw)
                c.true(eqcond(c, a, b), f'{tag}: entities of equal state compare equal')
                c.true(eqcond(c, a, a), f'{tag}: an entity equals itself')
                c.true(c_not(eqcond(c, a, b, 'NotEq')), f'{tag}: != of entities of equal state')
                # the same state reached by a step and by assignment
                pa, pb = Probe(c, e, a), Probe(c, e, b)
                nx = newstate(e, 'n')
                pa.next[:] = nx
                pb.next[:] = nx
                for o in (a, b):
                    c.returns(step(c, o, DT(), None), f'{tag}: step')
                c.true(eqcond(c, a, b), f'{tag}: entities that made the same step compare equal')
            c.ob(f'{tag}/equal', 'equal states and derivatives compare equal', equal, e.path + '.__eq__')
            c.world(True)

            def symm(e=e, kw=kw, tag=tag):
                a, b = construct(c, e, 'a', name='a', **kw), construct(c, e, 'b', name='b', **kw)
                x, y = eqcond(c, a, b), eqcond(c, b, a)
                c.iff(x, y, f'{tag}: a == b against b == a')
                c.iff(eqcond(c, a, b, 'NotEq'), c_not(x), f'{tag}: a != b against not (a == b)')
            if not (e.quat or e.key.startswith('Dubins') or e.key == 'CWHRotation2dSpacecraft') or True:
                c.ob(f'{tag}/symmetric', 'equality is symmetric', symm, e.path + '.__eq__')
        if e.key == 'SunEntity':
            c.world(True)

            def suns(e=e):
                a, b = construct(c, e, 'a', name='a'), construct(c, e, 'b', name='b', n=P('n'))
                c.true(eqcond(c, a, b), 'two Sun entities compare equal')
            c.ob('SunEntity/all-equal', 'Sun entities are all equal to each other', suns, e.path + '.__eq__')
            continue
        # a single differing component, everything else equal
        for i, f in enumerate(e.slots):
            if i in (e.quat or ()) or f == 'theta':
                continue
            heads = [T(0)] if f != 'v' else [T(0), PI / 2, PI / 6, PI * F(-3, 4)]
            for k, h in enumerate(heads):
                c.world(True)

                def one(e=e, i=i, f=f, h=h):
                    s = s0(e)
                    if f == 'v':
                        s[e.slots.index('heading')] = h
                        if 'gamma' in e.slots:
                            s[e.slots.index('gamma')] = T(0)
                    r = list(s)
                    for sgn in ((1, -1) if f != 'v' else (1, )):
                        r[i] = s[i] + T(sgn) * tm.sym('gap', 'pos')
                        a, b = construct(c, e, init=s, name='a'), construct(c, e, init=r, name='a')
                        if f == 'heading':
                            # headings a whole turn apart face the same way
                            c.true(c_or(c_not(eqcond(c, a, b)), tm.eq0(tm.sym('gap', 'pos') - 2 * PI)) if False else c_not(eqcond(c, a, b)),
                                   f'{e.key}: entities that differ in {f} compare unequal', assume=tm.lt0(tm.sym('gap', 'pos') - PI))
                        else:
                            c.true(c_not(eqcond(c, a, b)), f'{e.key}: entities that differ in {f} compare unequal')
                c.ob(f'{e.key}/differs/{f}{"/" + str(k) if k else ""}', f'entities that differ in one component are unequal', one, e.path + '.__eq__')
        # vectors of the same length in other directions, and components that change places
        for grp in (('x', 'y', 'z'), ('x_dot', 'y_dot', 'z_dot'), ('wx', 'wy', 'wz')):
            own = [e.slots.index(f) for f in grp if f in e.slots]
            if not own:
                continue
            c.world(True)

            def turned(e=e, own=own):
                for i in own:
                    for j in own:
                        s = s0(e)
                        for k in own:
                            s[k] = T(0)
                        r = list(s)
                        s[i] = tm.sym('len', 'pos')
                        r[j] = -s[i] if i == j else s[i]
                        a, b = construct(c, e, init=s, name='a'), construct(c, e, init=r, name='a')
                        c.true(c_not(eqcond(c, a, b)), f'{e.key}: {e.slots[i]} of some length against the same length along {"-" if i == j else ""}{e.slots[j]}')
            c.ob(f'{e.key}/turned/{grp[0]}', 'vectors of equal length in different directions are unequal', turned, e.path + '.__eq__')
        for k, th in enumerate([PI / 3, PI * F(-1, 2), PI, T(1), T(F(-1, 100))] if 'theta' in e.slots else []):
            c.world(True)

            def att(e=e, th=th):
                for base in (T(0), PI / 4):
                    s = s0(e)
                    s[2] = base
                    r = list(s)
                    r[2] = base + th
                    a, b = construct(c, e, init=s, name='a'), construct(c, e, init=r, name='a')
                    c.true(c_not(eqcond(c, a, b)), f'{e.key}: entities that differ in attitude compare unequal')
            c.ob(f'{e.key}/differs/attitude/{k}', 'entities that differ in attitude are unequal', att, e.path + '.__eq__')
        for k, (q0, q) in enumerate([((0, 0, 0, 1), q) for q in QUATS] + FLIPS if e.quat else []):
            c.world(True)

            def att(e=e, q0=q0, q=q):
                s = s0(e)
                for i, x in zip(e.quat, q0):
                    s[i] = T(F(x))
                r = list(s)
                for i, x in zip(e.quat, q):
                    r[i] = T(F(x))
                a, b = construct(c, e, init=s, name='a'), construct(c, e, init=r, name='a')
                c.true(c_not(eqcond(c, a, b)), f'{e.key}: entities that differ in attitude compare unequal')
                c.true(c_not(eqcond(c, b, a)), f'{e.key}: entities that differ in attitude compare unequal (swapped)')
            c.ob(f'{e.key}/differs/attitude/{k}', 'entities that differ in attitude are unequal', att, e.path + '.__eq__')
        c.world(True)

        def after(e=e):
            a, b = construct(c, e, name='a'), construct(c, e, name='a')
            pr = Probe(c, e, a)
            st = s0(e)
            pr.next[:] = st
            pr.next[0] = st[0] + tm.sym('gap', 'pos')
            for i in range(e.n):
                pr.dot[i] = T(0)
            c.returns(step(c, a, DT(), None), f'{e.key}: step')
            c.true(c_not(eqcond(c, a, b)), f'{e.key}: a moved entity against its twin that stayed')
            c.true(c_not(eqcond(c, b, a)), f'{e.key}: a twin that stayed against the moved entity')
            c.w.it.setattr(a, 'state', c.w.arr(st))
            c.true(eqcond(c, a, b), f'{e.key}: an entity put back against its twin')
        c.ob(f'{e.key}/moved', 'equality follows the current state', after, e.path + '.__eq__')
        # the comparisons it inherits, which user-defined entities of the same family use
        c.world(True)
        for base in family(c, e):
            c.world(True)

            def inherited(e=e, base=base):
                b0 = c.api(base)

                def eq(a, b):
                    return c.w.it.truth(c.returns(c.w.call(c.returns(c.w.attr(b0, '__eq__'), '__eq__'), a, b), f'{base}.__eq__'))
                s = s0(e)
                if 'v' in e.slots:
                    for f in ('heading', 'gamma', 'roll'):
                        if f in e.slots:
                            s[e.slots.index(f)] = T(0)
                x, y = construct(c, e, init=s, name='x'), construct(c, e, init=s, name='y')
                c.true(eq(x, y), f'{base}.__eq__: entities of equal state')
                for f in ('x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot', 'v'):
                    if f in e.slots:
                        i = e.slots.index(f)
                        r = list(s)
                        r[i] = s[i] + tm.sym('gap', 'pos')
                        y = construct(c, e, init=r, name='x')
                        c.true(c_not(eq(x, y)), f'{base}.__eq__: entities that differ in {f}')
                        c.true(c_not(eq(y, x)), f'{base}.__eq__: entities that differ in {f}, the other way round')
                g = next(g for g in ENTITIES if not g.key.startswith(('Dubins', 'Integrator')))
                for what, v in ((g.key, construct(c, g, 'a', name='x')), ('None', None), ('a string', 'x'), ('a number', NUM(tm.sym('num')))):
                    c.true(c_not(eq(x, v)), f'{base}.__eq__: {e.key} against {what}')
            c.ob(f'{e.key}/inherited/{base}', 'the comparison a family of entities inherits is one of state', inherited, base + '.__eq__')
    for e in ENTITIES:
        c.world(True)

        def foreign(e=e):
            a = construct(c, e, 'a', name='a')
            for g in ENTITIES:
                if g.key == e.key:
                    continue
                b = construct(c, g, 'a', name='a')
                c.true(c_not(eqcond(c, a, b)), f'{e.key} == {g.key}')
            for what, v in (('None', None), ('a number', NUM(tm.sym('x'))), ('a string', 'a'), ('a list', c.w.list([])), ('its state', c.w.arr([1, 2])),
                            ('a dict', c.w.it.mkdict([]))):
                if what == 'its state':
                    continue
                c.true(c_not(eqcond(c, a, v)), f'{e.key} == {what}')
                c.true(eqcond(c, a, v, 'NotEq'), f'{e.key} != {what}')
        def rest(e=e):
            for g in ENTITIES:
                if g.key != e.key:
                    p, q = construct(c, e, init=atrest(e), name='a'), construct(c, g, init=atrest(g), name='a')
                    c.true(c_not(eqcond(c, p, q)), f'{e.key} == {g.key} at the same place, level and unturned')
        c.ob(f'{e.key}/foreign/at-rest', 'an entity never equals an object of another kind', rest, e.path + '.__eq__')
        c.world(True)
        c.ob(f'{e.key}/foreign', 'an entity never equals an object of another kind', foreign, e.path + '.__eq__')


def atrest(e):
    zero = {'v': T(300), 'q4': T(1)}
    return [zero.get(f, T(0)) for f in e.slots]


H = '1/2'
# attitudes that differ only in the signs or in the order of their components
FLIPS = [((H, H, H, H), ('-1/2', H, H, H)), ((H, H, H, H), (H, '-1/2', H, H)), ((H, H, H, H), (H, H, '-1/2', H)),
         ((H, H, H, H), (H, H, H, '-1/2')), ((0, 0, '3/5', '4/5'), (0, 0, '4/5', '3/5')), (('3/5', 0, 0, '4/5'), (0, '3/5', 0, '4/5'))]
QUATS = [(0, 0, 1, 0), (0, 1, 0, 0), (1, 0, 0, 0), ('3/5', 0, 0, '4/5'), (0, '-3/5', 0, '4/5'), (0, 0, '5/13', '-12/13'), ('1/2', '1/2', '1/2', '1/2')]


# ---------------------------------------------------------------------- P24
def simulation(c, pairs):
    it = c.w.it
    cls = VClass('Simulator', [it.builtins['object']], native='Simulator')
    cls.meta['driver'] = True
    return it.new(HInst(cls, {'sim_entities': it.mkdict(list(pairs))}))


QUERIES = (('entity_relative_position', 'position'), ('entity_relative_velocity', 'velocity'))


def p24(c):
    chasers = [e for e in ENTITIES if e.key in ('CWHSpacecraft', 'CWHRotation2dSpacecraft', 'SixDOFSpacecraft')]
    for e in chasers:
        for g in chasers:
            for order in range(3):
                c.world(True)

                def rel(e=e, g=g, order=order):
                    own = construct(c, e, 'a', name='ego')
                    tgt = construct(c, g, 'b', name='target')
                    oth = construct(c, g, 'c', name='other')
                    items = [('ego', own), ('target', tgt), ('other', oth)]
                    items = items[order:] + items[:order]
                    sim = simulation(c, items)
                    c.returns(c.w.method(own, 'set_sim', sim), 'set_sim')
                    ents = dict(items)
                    before = {k: view(c, o) for k, o in ents.items()}
                    for q, acc in QUERIES:
                        for name in ('target', 'other', 'ego', 'target'):
                            v = c.returns(c.w.method(own, q, name), f'{e.key}.{q}({name})')
                            x = cells(c, v)
                            a, b = vcells(c, ents[name], acc, 3), vcells(c, own, acc, 3)
                            c.sure(len(x) == 3, f'{e.key}.{q} returns {len(x)} elements')
                            for i in range(3):
                                c.eq(x[i], a[i] - b[i], f'{e.key}.{q}({name})[{i}]')
                            from .history import scribble
                            scribble(c, v)
                            for k, o in ents.items():
                                same(c, before[k], view(c, o), f'{k} after {q}({name})')
                c.ob(f'{e.key}/{g.key}/order{order}', 'relative value == target minus own, entities untouched', rel, e.path + '.entity_relative_position')
        c.world(True)

        def moving(e=e):
            own, tgt = construct(c, e, 'a', name='ego'), construct(c, e, 'b', name='target')
            c.returns(c.w.method(own, 'set_sim', simulation(c, [('ego', own), ('target', tgt)])), 'set_sim')
            for rnd in range(2):
                for q, acc in QUERIES:
                    x = cells(c, c.returns(c.w.method(own, q, 'target'), q))
                    a, b = vcells(c, tgt, acc, 3), vcells(c, own, acc, 3)
                    for i in range(3):
                        c.eq(x[i], a[i] - b[i], f'{e.key}.{q}[{i}] in round {rnd}')
                for o, t in ((own, 'o'), (tgt, 't')):
                    pr = Probe(c, e, o)
                    pr.next[:] = newstate(e, f'{t}{rnd}')
                    c.returns(step(c, o, DT(), None), 'step')
        c.ob(f'{e.key}/moving', 'relative values follow the current states', moving, e.path + '.entity_relative_position')
        for how in ('argument', 'set_sim', 'replaced'):
            c.world(True)

            def source(e=e, how=how):
                tgt, new = construct(c, e, 'b', name='target'), construct(c, e, 'd', name='target')
                sim = simulation(c, [('target', tgt)])
                own = construct(c, e, 'a', name='ego', **({'sim': sim} if how == 'argument' else {}))
                want = tgt
                if how != 'argument':
                    c.returns(c.w.method(own, 'set_sim', sim), 'set_sim')
                if how == 'replaced':
                    c.returns(c.w.method(own, 'set_sim', simulation(c, [('target', new)])), 'set_sim')
                    want = new
                # another entity and its own simulation must not interfere
                twin = construct(c, e, 'e', name='twin')
                c.returns(c.w.method(twin, 'set_sim', simulation(c, [('target', twin)])), 'set_sim')
                for q, acc in QUERIES:
                    x = cells(c, c.returns(c.w.method(own, q, 'target'), q))
                    a, b = vcells(c, want, acc, 3), vcells(c, own, acc, 3)
                    for i in range(3):
                        c.eq(x[i], a[i] - b[i], f'{e.key}.{q}[{i}] with the simulation from {how}')
            c.ob(f'{e.key}/simulation/{how}', 'the current simulation reference is the one consulted', source, e.path + '.set_sim')
        for how in ('simulation', 'entry', 'removed'):
            c.world(True)

            def later(e=e, how=how):
                # what an earlier query found is no longer consulted once the simulation changed
                it = c.w.it
                old, new, own = construct(c, e, 'b', name='target'), construct(c, e, 'd', name='target'), construct(c, e, 'a', name='ego')
                sim = simulation(c, [('target', old), ('ego', own)])
                c.returns(c.w.method(own, 'set_sim', sim), 'set_sim')
                for q, acc in QUERIES:
                    c.returns(c.w.method(own, q, 'target'), q)
                    c.returns(c.w.method(own, q, 'ego'), q)
                if how == 'simulation':
                    c.returns(c.w.method(own, 'set_sim', simulation(c, [('target', new), ('ego', own)])), 'set_sim')
                elif how == 'entry':
                    it.setitem(it.getattr(sim, 'sim_entities'), 'target', new)
                else:
                    it.setattr(sim, 'sim_entities', it.mkdict([('ego', own)]))
                for q, acc in QUERIES:
                    if how == 'removed':
                        c.raises(c.w.method(own, q, 'target'), ['Exception'], f'{e.key}.{q} of an entity that left the simulation')
                        continue
                    x = cells(c, c.returns(c.w.method(own, q, 'target'), q))
                    a, b = vcells(c, new, acc, 3), vcells(c, own, acc, 3)
                    for i in range(3):
                        c.eq(x[i], a[i] - b[i], f'{e.key}.{q}[{i}] after the {how} was exchanged')
            c.ob(f'{e.key}/exchanged/{how}', 'a query consults the simulation as it is now', later, e.path + '.entity_relative_position')
        for lead in ('target', 'target2', 'tar', 'Target', 'ego', None):
            c.world(True)

            def names(e=e, lead=lead):
                # names that resemble each other, one of them the registered lead
                it = c.w.it
                own = construct(c, e, 'a', name='ego')
                al = {n: construct(c, e, f'p{i}', name=n) for i, n in enumerate(('target', 'target2', 'tar', 'Target', ' target', '2target'))}
                al['ego'] = own
                c.returns(c.w.method(own, 'set_sim', simulation(c, list(al.items()))), 'set_sim')
                if lead is not None:
                    if peek(c, own, 'register_lead') is None:
                        raise Skip_()
                    c.returns(c.w.method(own, 'register_lead', al[lead]), 'register_lead')
                for q, acc in QUERIES:
                    for n in al:
                        x = cells(c, c.returns(c.w.method(own, q, n), f'{q}({n!r})'))
                        a, b = vcells(c, al[n], acc, 3), vcells(c, own, acc, 3)
                        for i in range(3):
                            c.eq(x[i], a[i] - b[i], f'{e.key}.{q}({n!r})[{i}] with {lead!r} registered as lead')
            from .history import Skip_
            try_ob(c, f'{e.key}/names/{lead}', 'the named entity is the one measured, whichever entity is registered as lead', names, e.path + '.entity_relative_position')
        c.world(True)

        def missing(e=e):
            own = construct(c, e, 'a', name='ego')
            for q, _ in QUERIES:
                c.raises(c.w.method(own, q, 'target'), ['Exception'], f'{e.key}.{q} without a simulation')
            c.returns(c.w.method(own, 'set_sim', simulation(c, [('ego', own)])), 'set_sim')
            for q, _ in QUERIES:
                for name in ('target', '', 'EGO', 'ego '):
                    c.raises(c.w.method(own, q, name), ['Exception'], f'{e.key}.{q}({name!r}) with an unknown name')
            c.returns(c.w.method(own, 'set_sim', None), 'set_sim')
            for q, _ in QUERIES:
                c.raises(c.w.method(own, q, 'ego'), ['Exception'], f'{e.key}.{q} after the simulation was removed')
        c.ob(f'{e.key}/missing', 'an unknown name or missing simulation is reported with an error', missing, e.path + '.entity_relative_position')
    for e, reg, attr in [(BY['SixDOFSpacecraft'], 'register_lead', 'lead')] + \
            [(BY[k], 'register_lead', 'lead') for k in ('CWHSpacecraft', 'CWHRotation2dSpacecraft')] + \
            [(BY[k], 'register_partner', 'partner') for k in ('Dubins2dAircraft', 'Dubins3dAircraft')]:
        for later in (False, True):
            c.world(True)

            def regs(e=e, reg=reg, attr=attr, later=later):
                from .history import Skip_
                it = c.w.it
                own, tw = construct(c, e, 'a', name='ego'), construct(c, e, 'a', name='ego')
                if peek(c, own, reg) is None:
                    raise Skip_()
                x, y = construct(c, e, 'b', name='x'), construct(c, e, 'b', name='x')
                c.sure(it.res(vget(c, own, attr)) is None, f'{e.key}: {attr} before registration')
                seen = [view(c, o) for o in (own, x, y)]
                c.returns(c.w.method(own, reg, x), reg)
                want = x
                if later:
                    c.returns(c.w.method(tw, reg, y), reg)
                    c.returns(c.w.method(own, reg, y), reg)
                    c.returns(c.w.method(tw, reg, x), reg)
                    want = y
                g = it.res(vget(c, own, attr))
                c.sure(isinstance(g, VRef) and g == it.res(want), f'{e.key}: {reg} makes another object available as {attr}')
                h = it.res(vget(c, tw, attr))
                c.sure(h == it.res(x) if later else h is None, f'{e.key}: {attr} of another entity after {reg}')
                for o, v in zip((own, x, y), seen):
                    same(c, v, view(c, o), f'{e.key}: entity after {reg}')
                pr = Probe(c, e, own)
                c.returns(step(c, own, DT(), None), 'step')
                g = it.res(vget(c, own, attr))
                c.sure(g == it.res(want), f'{e.key}: {attr} after a step')
            try_ob(c, f'{e.key}/{reg}/{"again" if later else "once"}', 'registration makes exactly that entity available', regs, e.path + '.' + reg)


# ---------------------------------------------------------------------- P36
def p36(c):
    fn = lambda: c.api('utils.number_list_to_np')
    for n in (1, 2, 3, 5):
        for kind in ('float', 'int', 'negative', 'zero'):
            c.world(True)

            def num(n=n, kind=kind):
                v = {'float': NUM(tm.sym('x')), 'int': VNum(tm.sym('x', 'int'), 'int'), 'negative': VNum(T(-2), 'int'), 'zero': VNum(T(0), 'float')}[kind]
                o = c.returns(c.w.call(fn(), v, shape=VTuple([VNum(T(n), 'int')])), f'number_list_to_np({kind})')
                a = c.w.it.res(o)
                c.sure(isinstance(a, VArr) and tuple(a.shape) == (n, ), f'number to shape ({n},): {getattr(a, "shape", None)}')
                c.sure(a.dt == 'float64', f'number gives dtype {a.dt}')
                for i, x in enumerate(cells(c, a)):
                    c.eq(x, v.t, f'number to shape ({n},): element {i}')
            c.ob(f'number/{kind}/{n}', 'a number fills every element', num, 'utils.number_list_to_np')
        for kind in ('list', 'ints', 'array', 'mixed'):
            c.world(True)

            def vec(n=n, kind=kind):
                x = syms(n, 'x')
                v = {'list': lambda: c.w.list([NUM(t) for t in x]), 'ints': lambda: c.w.list([VNum(T(k), 'int') for k in range(n)]),
                     'mixed': lambda: c.w.list([VNum(T(1), 'int')] + [NUM(t) for t in x[1:]]), 'array': lambda: c.w.arr(x)}[kind]()
                want = c.w.cells(v)
                o = c.returns(c.w.call(fn(), v, shape=VTuple([VNum(T(n), 'int')])), f'number_list_to_np({kind})')
                a = c.w.it.res(o)
                c.sure(isinstance(a, VArr) and tuple(a.shape) == (n, ), f'{kind} to shape ({n},): {getattr(a, "shape", None)}')
                c.sure(a.dt == 'float64', f'{kind} gives dtype {a.dt}')
                for i, (p, q) in enumerate(zip(cells(c, a), want)):
                    c.eq(p, q, f'{kind} to shape ({n},): element {i}')
                for i, (p, q) in enumerate(zip(cells(c, v), want)):
                    c.eq(p, q, f'element {i} of the caller\'s {kind} afterwards')
            c.ob(f'{kind}/{n}', 'elements are kept in order', vec, 'utils.number_list_to_np')
            for m in (n + 1, n - 1):
                if not m:
                    continue
                c.world(True)

                def wrong(n=n, m=m, kind=kind):
                    x = syms(n, 'x')
                    v = c.w.arr(x) if kind == 'array' else c.w.list([NUM(t) for t in x])
                    c.raises(c.w.call(fn(), v, shape=VTuple([VNum(T(m), 'int')])), ['Exception'], f'{n} elements for shape ({m},)')
                if kind in ('list', 'array'):
                    c.ob(f'{kind}/{n}-for-{m}', 'a wrong length is refused', wrong, 'utils.number_list_to_np')
    for kind in ('number', 'int', 'list', 'array'):
        for dt in ('float32', 'float64'):
            c.world(True)

            def typed(kind=kind, dt=dt):
                x = syms(3, 'x')
                v = {'number': NUM(x[0]), 'int': VNum(T(2), 'int'), 'list': c.w.list([NUM(t) for t in x]), 'array': c.w.arr(x, dt=dt)}[kind]
                ty = c.w.it.ext.module('numpy').get(dt)
                a = c.w.it.res(c.returns(c.w.call(fn(), v, shape=VTuple([VNum(T(3), 'int')]), dtype=ty), f'number_list_to_np({kind}, dtype={dt})'))
                c.sure(isinstance(a, VArr) and tuple(a.shape) == (3, ) and a.dt == dt, f'{kind} as {dt} gives {getattr(a, "dt", a)} of shape {getattr(a, "shape", None)}')
            c.ob(f'dtype/{kind}/{dt}', 'the requested element type is the one returned', typed, 'utils.number_list_to_np')
    for key, rows, shape in (('rows-as-vector', 2, (4, )), ('row-as-vector', 1, (2, )), ('transposed', 3, (2, 3)), ('vector-as-rows', 0, (2, 2))):
        for kind in ('list', 'array'):
            c.world(True)

            def nested(rows=rows, shape=shape, kind=kind, key=key):
                x = syms(2 * rows or 4, 'x')
                if kind == 'array':
                    v = c.w.arr(x, (rows, 2)) if rows else c.w.arr(x)
                else:
                    v = c.w.list([c.w.list([NUM(t) for t in x[2 * k:2 * k + 2]]) for k in range(rows)] if rows else [NUM(t) for t in x])
                c.raises(c.w.call(fn(), v, shape=VTuple([VNum(T(n), 'int') for n in shape])), ['Exception'], f'{kind} {key} for shape {shape}')
            c.ob(f'refused/{key}/{kind}', 'numbers in another arrangement are refused', nested, 'utils.number_list_to_np')
    for bad in ('text', 'None', 'dict', 'float32', 'int64', 'matrix'):
        c.world(True)

        def refuse(bad=bad):
            v = {'text': '3', 'None': None, 'dict': c.w.it.mkdict([]), 'float32': c.w.arr(syms(3, 'x'), dt='float32'),
                 'int64': c.w.arr([1, 2, 3], dt='int64'), 'matrix': c.w.arr(syms(3, 'x'), (1, 3))}[bad]
            c.raises(c.w.call(fn(), v, shape=VTuple([VNum(T(3), 'int')])), ['Exception'], f'number_list_to_np(<{bad}>)')
        c.ob(f'refused/{bad}', 'an unusable input is refused', refuse, 'utils.number_list_to_np')
    c.world(True)

    def shape2():
        o = c.w.it.res(c.returns(c.w.call(fn(), NUM(tm.sym('x')), shape=VTuple([VNum(T(2), 'int'), VNum(T(3), 'int')])), 'number to a matrix'))
        c.sure(tuple(o.shape) == (2, 3), f'number to shape (2, 3): {o.shape}')
        for i, x in enumerate(cells(c, o)):
            c.eq(x, tm.sym('x'), f'number to a matrix: element {i}')
    c.ob('number/matrix', 'a number fills a matrix', shape2, 'utils.number_list_to_np')
