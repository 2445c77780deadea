"""P04 state limits, P05 rate limits, P06 wrapping, P07 step contract, P08 end derivative, P09 purity, P12 velocity."""
from __future__ import annotations

from .common import *
from .control import Probe
from .models import unlimit, unit_quat, rate, ent_dyn, P

TWO_PI = PI * 2


def wrap(x, ctr=T(0)):
    return tm.mod(x - ctr + PI, TWO_PI) - PI + ctr


def nanv():
    return tm.NAN


class Sys:
    """a dynamics object together with what the rules need to know about it"""

    def __init__(self, d, n, m, lo, hi, dlo, dhi, ctr, jx=False, method='RK45', state=None, sdt='float64'):
        self.d, self.n, self.m = d, n, m
        self.lo, self.hi, self.dlo, self.dhi, self.ctr = lo, hi, dlo, dhi, ctr     # per slot, None: no limit / no wrapping
        self.jx, self.method = jx, method
        self.s = state or syms(n, 's')
        self.u = syms(m, 'u')
        self.sdt = sdt

    def limit(self, x, i):
        x = T(x)
        if self.lo[i] is not None:
            x = tm.tmax(x, T(self.lo[i]))
        if self.hi[i] is not None:
            x = tm.tmin(x, T(self.hi[i]))
        return x

    def settle(self, x, i):
        x = self.limit(x, i)
        return x if self.ctr[i] is None else wrap(x, T(self.ctr[i]))

    def rate_limit(self, r, s, i):
        r = T(r)
        if self.dlo[i] is not None:
            r = tm.tmax(r, T(self.dlo[i]))
        if self.dhi[i] is not None:
            r = tm.tmin(r, T(self.dhi[i]))
        lo, hi = self.lo[i], self.hi[i]
        a, b = r, r
        if lo is not None:
            r = tm.ite(tm.le0(s - lo), tm.tmax(r, T(0)), r)
        if hi is not None:
            r = tm.ite(tm.le0(T(hi) - s), tm.tmin(r, T(0)), r)
        return r


def linear(c, n=2, m=1, limits='vector', dlimits='vector', wrapped=None, jx=False, method='RK45', samples=0, diag=False):
    """the generic linear system of the public base class with symbolic matrices and symbolic limits"""
    w = c.w
    A = [tm.sym(f'A{i}{j}') if not diag or i == j else T(0) for i in range(n) for j in range(n)]
    B = [tm.sym(f'B{i}{j}') for i in range(n) for j in range(m)]
    k = {'A': w.arr(A, (n, n)), 'B': w.arr(B, (n, m)), 'integration_method': method, 'trajectory_samples': samples}
    lo = hi = dlo = dhi = [None] * n
    if limits == 'vector':
        lo = [tm.sym(f'lo{i}') for i in range(n)]
        hi = [lo[i] + tm.sym(f'gap{i}', 'pos') for i in range(n)]
        k['state_min'], k['state_max'] = w.arr(lo), w.arr(hi)
    elif limits == 'scalar':
        lo = [tm.sym('lo')] * n
        hi = [tm.sym('lo') + tm.sym('gap', 'pos')] * n
        k['state_min'], k['state_max'] = VNum(lo[0], 'float'), VNum(hi[0], 'float')
    elif limits == 'onesided':
        hi = [tm.sym(f'hi{i}') if i == 0 else None for i in range(n)]
        k['state_max'] = w.arr([x if x is not None else tm.INF for x in hi])
    elif limits == 'lower':
        lo = [tm.sym('lo')] * n
        k['state_min'] = VNum(lo[0], 'float')
    elif limits == 'upper':
        hi = [tm.sym('hi')] * n
        k['state_max'] = VNum(hi[0], 'float')
    if dlimits == 'vector':
        dlo = [-tm.sym(f'dlo{i}', 'nonneg') for i in range(n)]
        dhi = [tm.sym(f'dhi{i}', 'nonneg') for i in range(n)]
        k['state_dot_min'], k['state_dot_max'] = w.arr(dlo), w.arr(dhi)
    elif dlimits == 'scalar':
        dlo, dhi = [-tm.sym('dlo', 'nonneg')] * n, [tm.sym('dhi', 'nonneg')] * n
        k['state_dot_min'], k['state_dot_max'] = VNum(dlo[0], 'float'), VNum(dhi[0], 'float')
    elif dlimits == 'lower':
        dlo = [-tm.sym('dlo', 'nonneg')] * n
        k['state_dot_min'] = VNum(dlo[0], 'float')
    elif dlimits == 'upper':
        dhi = [tm.sym('dhi', 'nonneg')] * n
        k['state_dot_max'] = VNum(dhi[0], 'float')
    ctr = [None] * n
    if wrapped is not None:
        ctr = [wrapped.get(i) for i in range(n)]
        k['angle_wrap_centers'] = w.arr([T(x) if x is not None else nanv() for x in ctr])
    if jx:
        k['use_jax'] = True
    d = c.returns(w.call(c.api('base_models.BaseLinearODESolverDynamics'), **k), 'BaseLinearODESolverDynamics(...)')
    y = Sys(d, n, m, lo, hi, dlo, dhi, ctr, jx, method)
    y.raw = lambda s, u: [sum((A[i * n + j] * s[j] for j in range(n)), T(0)) + sum((B[i * m + j] * u[j] for j in range(m)), T(0)) for i in range(n)]
    return y


def timed(c, n=2, m=1, limits='vector', dlimits='none', jx=False, method='RK45', samples=0, base='BaseODESolverDynamics'):
    """a user-defined model on the public base class: its derivative is an arbitrary function of time, state and control
    (for the control affine base: an arbitrary drift and an arbitrary input matrix of the state)"""
    w, it = c.w, c.w.it
    jk = 'jax' if jx else None
    calls = []

    def need(x, k, what):
        v = w.cells(it.res(x))
        if v is None or len(v) != k:
            raise Undecided(f'{what} handed to the model is not a vector of {k} numbers')
        return v

    def der(i, a, k):
        d = dict(zip(('t', 'state', 'control'), a[-3:]))
        d.update(k)
        t, s, u = w.cells(it.res(d['t']))[0], need(d['state'], n, 'state'), need(d['control'], m, 'control')
        calls.append((t, s, u))
        return i.mkarr([tm.fn(f'f{j}', t, *s, *u) for j in range(n)], (n,), 'float64', jx=jk)

    def sysf(i, a, k):
        s = need((list(a) + [k.get('state')])[1], n, 'state')
        return i.mkarr([tm.fn(f'f{j}', *s) for j in range(n)], (n,), 'float64', jx=jk)

    def inpf(i, a, k):
        s = need((list(a) + [k.get('state')])[1], n, 'state')
        return i.mkarr([tm.fn(f'g{j}', *s) for j in range(n * m)], (n, m), 'float64', jx=jk)
    bi = lambda nm, f: VBuiltin(nm, f, {'method': True})
    if base == 'BaseODESolverDynamics':
        meth = {'_compute_state_dot': bi('_compute_state_dot', der)}
        raw = lambda t, s, u: [tm.fn(f'f{j}', T(t), *s, *u) for j in range(n)]
    else:
        meth = {'state_transition_system': bi('state_transition_system', sysf), 'state_transition_input': bi('state_transition_input', inpf)}
        raw = lambda t, s, u: [tm.fn(f'f{j}', *s) + sum((tm.fn(f'g{j * m + q}', *s) * u[q] for q in range(m)), T(0)) for j in range(n)]
    cls = VClass('UserDynamics', [c.api('base_models.' + base)], nmethods=meth)
    k = {'integration_method': method, 'trajectory_samples': samples}
    lo = hi = dlo = dhi = [None] * n
    if limits == 'vector':
        lo = [tm.sym(f'lo{i}') for i in range(n)]
        hi = [lo[i] + tm.sym(f'gap{i}', 'pos') for i in range(n)]
        k['state_min'], k['state_max'] = w.arr(lo), w.arr(hi)
    if dlimits == 'vector':
        dlo = [-tm.sym(f'dlo{i}', 'nonneg') for i in range(n)]
        dhi = [tm.sym(f'dhi{i}', 'nonneg') for i in range(n)]
        k['state_dot_min'], k['state_dot_max'] = w.arr(dlo), w.arr(dhi)
    if jx:
        k['use_jax'] = True
    d = c.returns(w.call(cls, **k), f'a user-defined {base}')
    y = Sys(d, n, m, lo, hi, dlo, dhi, [None] * n, jx, method)
    y.user = raw
    y.calls = calls
    return y


def user_systems():
    out = []
    for base in ('BaseODESolverDynamics', 'BaseControlAffineODESolverDynamics'):
        for m_ in ('RK45', 'Euler', 'RK45_JAX'):
            for lim in ('none', 'vector'):
                out.append((f'user/{base[4:-17] or "plain"}/{m_}/{lim}', base, m_, lim))
    return out


def entity_sys(c, e, method='RK45', **kw):
    """dynamics of a shipped entity with its documented default limits"""
    k = method_kw(e, method)
    k.update(kw)
    o = construct(c, e, **k)
    d = vget(c, o, 'dynamics')
    n = e.n
    y = Sys(d, n, len(e.controls), [None] * n, [None] * n, [None] * n, [None] * n, [None] * n, bool(k.get('use_jax')), method, s0(e))
    for i, (a, b) in e.lim.items():
        y.lo[i], y.hi[i] = T(a), T(b)
    for i, (a, b) in e.dlim.items():
        y.dlo[i], y.dhi[i] = T(a), T(b)
    for i in e.wrap:
        y.ctr[i] = T(0)
    y.o, y.e = o, e
    return y


def dstep(c, y, dt, what):
    w = c.w
    jx = 'jax' if y.jx else None
    s, u = w.arr(y.s, dt=y.sdt, jx=jx), w.arr(y.u, (y.m,), jx=jx)
    mark = len(w.it.log)
    out = w.method(y.d, 'step', VNum(dt, 'float'), s, u)
    y.ok = ivp_ok(c)
    v = c.returns(out, what, assume=y.ok)
    items = [w.it.res(x) for x in w.it.iterate(v)]
    c.sure(len(items) == 2, f'{what} returns {len(items)} values')
    nxt, dot = cells(c, items[0], 'next state'), cells(c, items[1], 'state derivative')
    c.sure(len(nxt) == y.n, f'{what}: next state has {len(nxt)} elements')
    c.sure(len(dot) == y.n, f'{what}: state derivative has {len(dot)} elements')
    y.events = out.events
    return nxt, dot


def f_of(c, y, s, u, t):
    """derivative of the system through its public entry point"""
    jx = 'jax' if y.jx else None
    return derivative(c, y.d, s, u, t=t, jx=jx)[0]


def raw_end(c, y, dt):
    """state the integration reaches, before limiting and wrapping"""
    if y.method == 'Euler':
        f = f_of(c, y, y.s, y.u, T(0))
        return [y.s[i] + dt * f[i] for i in range(y.n)]
    kind = {'RK45': 'solve_ivp', 'RK45_JAX': 'odeint'}[y.method]
    evs = [e for e in y.events if e['kind'] == kind]
    if len(evs) != 1:
        raise Undecided(f'{len(evs)} {kind} calls in one step')
    e = evs[0]
    t0, t1 = (e['t0'], e['t1']) if kind == 'solve_ivp' else (e['times'][0], e['times'][-1])
    if t0 != T(0):
        raise Undecided('integration does not start at time 0')
    return [tm.flow(i, tuple(e['der']), T(0), T(dt), tuple(y.s)) for i in range(y.n)]


def systems(c, limits=True):
    """(key, builder) for every system/method the step rules quantify over"""
    out = []
    for m_ in ('RK45', 'Euler', 'RK45_JAX'):
        jx = m_ == 'RK45_JAX'
        for lim in ('vector', 'scalar', 'onesided', 'lower', 'upper'):
            out.append((f'linear/{m_}/{lim}', lambda m_=m_, lim=lim, jx=jx: linear(c, 1 if lim in ('scalar', 'lower', 'upper') and m_ != 'Euler' else 2, 1, lim, 'none' if m_ != 'Euler' else 'vector', None, jx, m_)))
        out.append((f'linear/{m_}/wrapped', lambda m_=m_, jx=jx: linear(c, 2, 1, 'none', 'none', {1: tm.sym('ctr')}, jx, m_)))
        if m_ == 'RK45':
            out.append(('linear/RK45/jax-arrays', lambda: linear(c, 2, 1, 'vector', 'none', None, True, 'Euler')))
    for e in ENTITIES:
        for m_ in e.methods:
            out.append((f'{e.key}/{m_}', lambda e=e, m_=m_: entity_sys(c, e, m_)))
    return out


# ---------------------------------------------------------------------- P04
def p04(c):
    for key, build in systems(c):
        c.world(True)

        def ob(build=build, key=key):
            y = build()
            dt = DT()
            nxt, dot = dstep(c, y, dt, f'{key}: step')
            for i in range(y.n):
                if y.lo[i] is not None:
                    c.le(y.lo[i], nxt[i], f'{key}: lower limit of component {i} after a step', assume=y.ok)
                if y.hi[i] is not None:
                    c.le(nxt[i], y.hi[i], f'{key}: upper limit of component {i} after a step', assume=y.ok)
            raw = raw_end(c, y, dt)
            for i in range(y.n):
                if y.ctr[i] is None:
                    c.eq(nxt[i], y.limit(raw[i], i), f'{key}: component {i} is the integrated value limited to its range', assume=y.ok)
                else:
                    inside = c_and(c_not(tm.lt0(raw[i] - T(y.ctr[i]) + PI)), tm.lt0(raw[i] - T(y.ctr[i]) - PI))
                    c.eq(nxt[i], y.limit(raw[i], i), f'{key}: angle {i} inside its turn is the integrated value limited to its range', assume=c_and(y.ok, inside))
        c.ob(key, 'next state == integrated state clipped to [min, max]; hence within limits', ob, 'BaseDynamics.step')
        c.world(True)

        def still(build=build, key=key):
            # a step of no duration limits the state as well
            y = build()
            nxt, dot = dstep(c, y, T(0), f'{key}: step of zero duration')
            for i in range(y.n):
                if y.lo[i] is not None:
                    c.le(y.lo[i], nxt[i], f'{key}: lower limit of component {i} after a step of zero duration', assume=y.ok)
                if y.hi[i] is not None:
                    c.le(nxt[i], y.hi[i], f'{key}: upper limit of component {i} after a step of zero duration', assume=y.ok)
        if 'samples' not in key:
            c.ob(key + '/zero', 'next state within limits for a step of zero duration', still, 'BaseDynamics.step')
    # custom limits of the model classes reach the clip
    for e in ENTITIES:
        for m_ in ('RK45', 'Euler'):
            for sel in chunks(e.n):
                c.world(True)

                def custom(e=e, m_=m_, sel=sel):
                    n = e.n
                    lo = [T(-1) - tm.sym(f'lo{i}', 'nonneg') if i not in e.wrap else T(-1) for i in range(n)]
                    hi = [T(1) + tm.sym(f'hi{i}', 'nonneg') if i not in e.wrap else T(1) for i in range(n)]
                    if 'v' in e.slots:
                        k = e.slots.index('v')
                        lo[k], hi[k] = tm.sym('vlo', 'pos'), tm.sym('vlo', 'pos') + tm.sym('vgap', 'pos')
                    lo = [x if i in sel else -tm.INF for i, x in enumerate(lo)]
                    hi = [x if i in sel else tm.INF for i, x in enumerate(hi)]
                    d = dyn(c, e, state_min=c.w.arr(lo), state_max=c.w.arr(hi), integration_method=m_)
                    y = Sys(d, n, len(e.controls), lo, hi, [None] * n, [None] * n, [None] * n, False, m_, s0(e))
                    nxt, _ = dstep(c, y, DT(), f'{e.dyn}: step')
                    for i in sel:
                        c.le(lo[i], nxt[i], f'{e.dyn}: lower limit of {e.slots[i]}', assume=y.ok)
                        c.le(nxt[i], hi[i], f'{e.dyn}: upper limit of {e.slots[i]}', assume=y.ok)
                c.ob(f'{e.dyn}/{e.key}/custom-limits/{m_}/{sel[0]}-{sel[-1]}', 'limits given to the constructor bound every component', custom, e.dyn)


def chunks(n):
    return [list(range(n))] if n <= 7 else [list(range(k, min(k + 3, n))) for k in range(0, n, 3)]


# ---------------------------------------------------------------------- P05
def p05(c):
    for n, lim, dlim, jx in ((2, 'vector', 'vector', False), (2, 'scalar', 'scalar', False), (2, 'vector', 'none', False), (2, 'none', 'vector', False),
                             (2, 'vector', 'vector', True), (2, 'onesided', 'scalar', True), (2, 'lower', 'none', False), (2, 'upper', 'none', False),
                             (2, 'lower', 'upper', False), (2, 'upper', 'lower', True), (2, 'none', 'lower', False), (2, 'none', 'upper', True)):
        c.world(True)

        def ob(n=n, lim=lim, dlim=dlim, jx=jx):
            y = linear(c, n, 1, lim, dlim, None, jx)
            rate_rules(c, y, y.raw, f'linear system ({lim}/{dlim})')
        c.ob(f'linear/{lim}/{dlim}{"/jax" if jx else ""}', 'reported derivative within rate limits and never outward at a state limit; unaltered otherwise', ob,
             'BaseODESolverDynamics.compute_state_dot')
    for sgn in (1, -1):
        c.world(True)

        def away(sgn=sgn):
            # a rate range that excludes zero: the state limits prevail
            y = linear(c, 2, 1, 'vector', 'none')
            a = [tm.sym(f'r{i}', 'pos') for i in range(2)]
            b = [a[i] + tm.sym(f'rg{i}', 'pos') for i in range(2)]
            y.dlo, y.dhi = (a, b) if sgn > 0 else ([-x for x in b], [-x for x in a])
            c.w.it.setattr(y.d, 'state_dot_min', c.w.arr(y.dlo))
            c.w.it.setattr(y.d, 'state_dot_max', c.w.arr(y.dhi))
            f, r = f_of(c, y, y.s, y.u, tm.sym('t')), y.raw(y.s, y.u)
            for i in range(2):
                c.le(T(0), f[i], f'component {i} at its lower limit, rate range without zero', assume=tm.le0(y.s[i] - y.lo[i]))
                c.le(f[i], T(0), f'component {i} at its upper limit, rate range without zero', assume=tm.le0(T(y.hi[i]) - y.s[i]))
                c.eq(f[i], y.rate_limit(r[i], y.s[i], i), f'component {i}, rate range without zero')
        c.ob(f'linear/nonzero-rate/{"up" if sgn > 0 else "down"}', 'state limits prevail over a rate range that excludes zero', away, 'BaseODESolverDynamics.compute_state_dot')
    for m_ in ('RK45', 'RK45_JAX'):
        c.world(True)

        def pinned(m_=m_):
            # limits that leave a single value: at it, and only at it, the component may not move at all
            y = linear(c, 2, 1, 'none', 'none', None, m_ == 'RK45_JAX', m_)
            p = tm.sym('pin')
            c.w.it.setattr(y.d, 'state_min', c.w.arr([p, -tm.INF]))
            c.w.it.setattr(y.d, 'state_max', c.w.arr([p, tm.INF]))
            f, r = f_of(c, y, y.s, y.u, tm.sym('t')), y.raw(y.s, y.u)
            at = c_and(tm.le0(y.s[0] - p), tm.le0(p - y.s[0]))
            c.le(T(0), f[0], 'component with equal limits, at its lower limit', assume=tm.le0(y.s[0] - p))
            c.le(f[0], T(0), 'component with equal limits, at its upper limit', assume=tm.le0(p - y.s[0]))
            f0 = f_of(c, y, [p, y.s[1]], y.u, tm.sym('t'))
            c.eq(f0[0], T(0), 'component held by equal limits')
            c.eq(f0[1], y.raw([p, y.s[1]], y.u)[1], 'component without limits next to one with equal limits')
        c.ob(f'linear/pinned/{m_}', 'equal limits hold a component', pinned, 'BaseODESolverDynamics.compute_state_dot')
    for e in ENTITIES:
        for m_ in e.methods:
            c.world(True)

            def ent(e=e, m_=m_):
                y = entity_sys(c, e, m_)
                y2 = ent_dyn(c, e, m_ == 'RK45_JAX', default=True)
                free = lambda s, u: rate(c, y2[1], s, u, m_ == 'RK45_JAX')
                rate_rules(c, y, free, e.key)
            c.ob(f'{e.key}/{m_}/derivative', 'reported derivative respects the model\'s rate and state limits', ent, e.dyn)
    # what each integration method integrates
    for key, build in systems(c) + [(f'linear/{m_}/rates', lambda m_=m_: linear(c, 1, 1, 'vector', 'vector', None, m_ == 'RK45_JAX', m_)) for m_ in ('RK45', 'Euler', 'RK45_JAX')]:
        c.world(True)

        def integ(build=build, key=key):
            y = build()
            dt = DT()
            nxt, dot = dstep(c, y, dt, f'{key}: step')
            yv = [tm.sym(f'$y{i}') for i in range(y.n)]
            tv = tm.sym('$t')
            if y.method == 'Euler':
                f = f_of(c, y, y.s, y.u, T(0))
                for i in range(y.n):
                    c.eq(nxt[i], y.settle(y.s[i] + dt * f[i], i), f'{key}: Euler advances component {i} by the limited derivative')
                return
            kind = {'RK45': 'solve_ivp', 'RK45_JAX': 'odeint'}[y.method]
            evs = [e for e in y.events if e['kind'] == kind]
            c.sure(len(evs) >= 1, f'{key}: no {kind} integration takes place')
            for e in evs:
                f = f_of(c, y, yv, y.u, tv)
                for i in range(y.n):
                    c.eq(e['der'][i], f[i], f'{key}: component {i} of the integrated vector field is the limited derivative', where=e['where'])
        c.ob(f'{key}/integrand', 'the vector field handed to the solver is the limited derivative', integ, 'BaseODESolverDynamics._step')


def rate_rules(c, y, free, tag):
    f = f_of(c, y, y.s, y.u, tm.sym('t'))
    r = free(y.s, y.u)
    for i in range(y.n):
        if y.dlo[i] is not None:
            c.le(y.dlo[i], f[i], f'{tag}: lower rate limit of component {i}')
        if y.dhi[i] is not None:
            c.le(f[i], y.dhi[i], f'{tag}: upper rate limit of component {i}')
        if y.lo[i] is not None:
            c.le(T(0), f[i], f'{tag}: derivative of component {i} at its lower limit', assume=tm.le0(y.s[i] - y.lo[i]))
        if y.hi[i] is not None:
            c.le(f[i], T(0), f'{tag}: derivative of component {i} at its upper limit', assume=tm.le0(T(y.hi[i]) - y.s[i]))
        c.eq(f[i], y.rate_limit(r[i], y.s[i], i), f'{tag}: derivative of component {i} apart from the limits')


# ---------------------------------------------------------------------- P06
def p06(c):
    for m_ in ('RK45', 'Euler', 'RK45_JAX'):
        for lim in ('none', 'vector'):
            for ctr in ({0: tm.sym('ctr')}, {1: T(0)}, {0: T(1), 1: tm.sym('ctr')}):
                c.world(True)

                def ob(m_=m_, lim=lim, ctr=ctr):
                    y = linear(c, 2, 1, 'none', 'none', ctr, m_ == 'RK45_JAX', m_)
                    if lim == 'vector':
                        lo, hi = [tm.sym('lo0'), tm.sym('lo1')], [tm.sym('lo0') + tm.sym('gap0', 'pos'), tm.sym('lo1') + tm.sym('gap1', 'pos')]
                        c.w.it.setattr(y.d, 'state_min', c.w.arr(lo))
                        c.w.it.setattr(y.d, 'state_max', c.w.arr(hi))
                        y.lo, y.hi = lo, hi
                    wrap_rules(c, y, f'linear system {m_}')
                c.ob(f'linear/{m_}/{lim}/{",".join(f"{k}:{tm.show(T(v))}" for k, v in ctr.items())}', 'wrapped == value minus whole turns, within half a turn of the centre', ob,
                     'BaseDynamics._wrap_angles')
    for e in ENTITIES:
        for m_ in e.methods:
            c.world(True)

            def ent(e=e, m_=m_):
                wrap_rules(c, entity_sys(c, e, m_), e.key)
            c.ob(f'{e.key}/{m_}', 'exactly the angles of the model are wrapped around zero', ent, e.dyn)
            if any(x is not None for x in e.wrap):
                for what, dt in (('zero', T(0)), ('backward', -DT())):
                    c.world(True)

                    def short(e=e, m_=m_, dt=dt, what=what):
                        wrap_rules(c, entity_sys(c, e, m_), f'{e.key} (step {what})', dt)
                    c.ob(f'{e.key}/{m_}/{what}', 'angles are wrapped after steps of zero and negative duration as well', short, e.dyn)
        c.world(True)

        def nolimit(e=e):
            y = entity_sys(c, e, 'Euler')
            unlimit(c, y.d)
            y.lo = y.hi = y.dlo = y.dhi = [None] * y.n
            wrap_rules(c, y, e.key + ' (limits removed)')
        c.ob(f'{e.key}/unlimited', 'wrapping of every real value', nolimit, e.dyn)
    # the default of the planar model's own dynamics class
    c.world(True)

    def rot():
        e = BY['CWHRotation2dSpacecraft']
        d = dyn(c, e, integration_method='Euler')
        unlimit(c, d)
        y = Sys(d, e.n, 3, [None] * 6, [None] * 6, [None] * 6, [None] * 6, [None, None, T(0), None, None, None], False, 'Euler', s0(e))
        wrap_rules(c, y, e.dyn)
    c.ob('CWHRotation2dDynamics/default', 'planar model wraps its heading by default', rot, BY['CWHRotation2dSpacecraft'].dyn)


def wrap_rules(c, y, tag, dt=None):
    dt = DT() if dt is None else dt
    nxt, _ = dstep(c, y, dt, f'{tag}: step')
    raw = raw_end(c, y, dt)
    for i in range(y.n):
        if y.ctr[i] is None:
            c.eq(nxt[i], y.limit(raw[i], i), f'{tag}: component {i} has no wrap centre', assume=y.ok)
            continue
        ctr = T(y.ctr[i])
        c.le(ctr - PI, nxt[i], f'{tag}: component {i} is at least centre - pi', assume=y.ok)
        c.le(nxt[i], ctr + PI, f'{tag}: component {i} is at most centre + pi', assume=y.ok)
        c.eq(nxt[i], wrap(y.limit(raw[i], i), ctr), f'{tag}: component {i} differs from the unwrapped value by whole turns', assume=y.ok)


# ---------------------------------------------------------------------- P12
def p12(c):
    for e in ENTITIES:
        if e.pos is None:
            continue
        for jx in ([False, True] if e.jax else [False]):
            for when in ('initially', 'after a step'):
                c.world(True)

                def ob(e=e, jx=jx, when=when):
                    o, d, t, s = ent_dyn(c, e, jx)
                    if when != 'initially':
                        pr = Probe(c, e, o)
                        if 'v' in e.slots:
                            pr.next[e.slots.index('v')] = tm.sym('n_v', 'pos')
                        c.returns(step(c, o, DT(), None), f'{e.key}.step()')
                        s = pr.next
                    pos, vel = vcells(c, o, 'position'), vcells(c, o, 'velocity')
                    c.sure(len(pos) == len(vel), f'{e.key}: position has {len(pos)} components, velocity {len(vel)}')
                    u = [tm.sym(f'u{i}') for i in range(len(e.controls))]
                    out = rate(c, d, s, u, jx)
                    for i, x in enumerate(pos):
                        if x.const() is not None:
                            w = T(0)
                        elif x in s:
                            w = out[s.index(x)]
                        else:
                            raise Undecided('position is not a state component')
                        c.eq(vel[i], w, f'{e.key}: velocity[{i}] {when} vs time derivative of position[{i}]')
                    for k in ('x', 'y', 'z'):
                        if e.slots.count(k) and f'{k}_dot' in e.slots:
                            c.eq(cells(c, vget(c, o, f'{k}_dot'))[0], out[e.slots.index(k)], f'{e.key}: {k}_dot {when}')
                c.ob(f'{e.key}{"/jax" if jx else ""}/{when}', 'velocity accessor == derivative of position accessor', ob, e.path)
