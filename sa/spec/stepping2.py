"""P07 one step integrates the step, P08 end-of-step derivative, P09 derivative purity, P10 state ownership."""
from __future__ import annotations

from .common import *
from .control import Probe
from .models import unlimit, ent_dyn, rate
from .stepping import Sys, linear, timed, user_systems, entity_sys, dstep, f_of, raw_end, systems, wrap


def solved(c, y, kind):
    return [e for e in y.events if e['kind'] == kind]


def span_rules(c, y, dt, key):
    """the solver is asked for the state's own vector field over [0, dt] starting from the given state"""
    kind = {'RK45': 'solve_ivp', 'RK45_JAX': 'odeint'}[y.method]
    evs = solved(c, y, kind)
    c.sure(len(evs) >= 1, f'{key}: no {kind} integration takes place')
    yv, tv = [tm.sym(f'$y{i}') for i in range(y.n)], tm.sym('$t')
    if len(evs) != 1:
        raise Undecided(f'{len(evs)} {kind} calls in one step')
    e = evs[0]
    w = e['where']
    t0, t1 = (e['t0'], e['t1']) if kind == 'solve_ivp' else (e['times'][0], e['times'][-1])
    f = f_of(c, y, yv, y.u, tv)
    for i in range(y.n):
        c.eq(e['der'][i], f[i], f'{key}: vector field component {i} handed to the solver vs the model\'s derivative under the given control', where=w)
        c.eq(e['y0'][i], y.s[i], f'{key}: initial value {i} of the integration', where=w)
    free = any(tm.depends(x, tv) for x in f)
    if free:
        c.eq(t0, T(0), f'{key}: integration starts at time 0', where=w)
    c.eq(t1 - t0, dt, f'{key}: integrated duration', where=w)
    return e


def p07(c):
    for key, build in systems(c):
        c.world(True)

        def ob(build=build, key=key):
            y = build()
            dt = DT()
            nxt, dot = dstep(c, y, dt, f'{key}: step')
            if y.method == 'Euler':
                f = f_of(c, y, y.s, y.u, T(0))
                for i in range(y.n):
                    c.eq(nxt[i], y.settle(y.s[i] + dt * f[i], i), f'{key}: explicit Euler step of component {i}', assume=y.ok)
                return
            e = span_rules(c, y, dt, key)
            for i in range(y.n):
                c.eq(nxt[i], y.settle(tm.flow(i, tuple(e['der']), T(0), dt, tuple(y.s)), i), f'{key}: component {i} is the solution at the end of the step', assume=y.ok)
        c.ob(key, 'next state == solution at dt of the model\'s own derivative from the given state under the held control', ob, 'BaseODESolverDynamics._step')
    # user-defined models: the derivative is any function of time, state and control
    for key, base, m_, lim in user_systems():
        c.world(True)

        def user(key=key, base=base, m_=m_, lim=lim):
            y = timed(c, 2, 1, lim, 'none', m_ == 'RK45_JAX', m_, 0, base)
            dt = DT()
            nxt, dot = dstep(c, y, dt, f'{key}: step')
            f = lambda t, s: [y.rate_limit(x, s[i], i) for i, x in enumerate(y.user(t, s, y.u))]
            if m_ == 'Euler':
                want = [y.s[i] + dt * x for i, x in enumerate(f(T(0), y.s))]
            else:
                e = span_rules(c, y, dt, key)
                yv = [tm.sym(f'$y{i}') for i in range(2)]
                der = f(tm.sym('$t'), yv)
                for i in range(2):
                    c.eq(e['der'][i], der[i], f'{key}: component {i} of the integrated vector field', where=e['where'])
                want = [tm.flow(i, tuple(e['der']), T(0), dt, tuple(y.s)) for i in range(2)]
            for i in range(2):
                c.eq(nxt[i], y.settle(want[i], i), f'{key}: component {i} after a step', assume=y.ok)
        c.ob(key, 'a step of a user-defined model integrates its derivative from time 0 to dt under the held control', user, 'BaseODESolverDynamics._step')
    # a step depends on its arguments only, whatever the model was stepped through before
    again = [(f'{e.key}/{m_}/again', lambda e=e, m_=m_: entity_sys(c, e, m_)) for e in ENTITIES for m_ in e.methods]
    again += [(f'linear/{m_}/{"samples/" if n else ""}again', lambda m_=m_, n=n: linear(c, 2, 1, 'vector', 'vector', {1: T(0)} if not n else None, m_ == 'RK45_JAX', m_, n))
              for m_, n in (('RK45', 0), ('RK45', 2), ('Euler', 0), ('RK45_JAX', 0))]
    again += [(f'{key}/again', lambda base=base, m_=m_, lim=lim: timed(c, 2, 1, lim, 'none', m_ == 'RK45_JAX', m_, 0, base))
              for key, base, m_, lim in user_systems() if lim == 'none' or c.thorough]
    for key, build in again:
        c.world(True)

        def repeat(build=build, key=key):
            y, f = build(), build()
            s, u = [tm.sym(f'b{i}', 'pos') if i == y.n - 1 and key.startswith('Dubins') else tm.sym(f'b{i}') for i in range(y.n)], syms(y.m, 'bu')
            dstep(c, y, tm.sym('before', 'pos'), f'{key}: first step')
            y.s, y.u = f.s, f.u = s, u
            a, b = dstep(c, y, DT(), f'{key}: second step'), dstep(c, f, DT(), f'{key}: step of a new model')
            ok = ivp_ok(c)
            for i in range(y.n):
                c.eq(a[0][i], b[0][i], f'{key}: component {i} after a second step vs the same step of a new model', assume=ok)
                c.eq(a[1][i], b[1][i], f'{key}: derivative {i} after a second step vs the same step of a new model', assume=ok)
            for n in ('trajectory_t', 'trajectory') if 'samples' in key else ():
                p, q = vcells(c, y.d, n), vcells(c, f.d, n)
                c.sure(len(p) == len(q), f'{key}: {n} of a second step has {len(p)} elements, {len(q)} expected')
                for i, (x, z) in enumerate(zip(p, q)):
                    c.eq(x, z, f'{key}: {n}[{i}] of a second step', assume=ok)
        c.ob(key, 'a step after other steps equals the same step of a new model', repeat, 'BaseODESolverDynamics._step')
    # sampled trajectories
    for n in (1, 2, 5):
        for src in ['linear'] + [e.key for e in ENTITIES if e.samples]:
            if src != 'linear' and n != 2 and not c.thorough:
                continue
            c.world(True)

            def traj(n=n, src=src):
                y = linear(c, 2, 1, 'vector', 'vector', None, False, 'RK45', n) if src == 'linear' else entity_sys(c, BY[src], 'RK45', trajectory_samples=n)
                dt = DT()
                nxt, dot = dstep(c, y, dt, f'{src}: step with {n} samples')
                e = span_rules(c, y, dt, src)
                tt, tr = vcells(c, y.d, 'trajectory_t'), vcells(c, y.d, 'trajectory')
                c.sure(len(tt) == n, f'{src}: {len(tt)} sample times, {n} requested')
                c.sure(len(tr) == n * y.n, f'{src}: trajectory holds {len(tr)} numbers, {n} samples of {y.n} components requested')
                shape = c.w.it.res(vget(c, y.d, 'trajectory')).shape
                c.sure(tuple(shape) == (n, y.n), f'{src}: trajectory has shape {shape}, ({n}, {y.n}) required')
                for k in range(n):
                    t = dt * T(F(k + 1, n))
                    c.eq(tt[k], t, f'{src}: sample time {k}', assume=y.ok)
                    for i in range(y.n):
                        c.eq(tr[k * y.n + i], tm.flow(i, tuple(e['der']), T(0), t, tuple(y.s)), f'{src}: sample {k} of component {i}', assume=y.ok)
                for i in range(y.n):
                    c.eq(nxt[i], y.settle(tm.flow(i, tuple(e['der']), T(0), dt, tuple(y.s)), i), f'{src}: component {i} with {n} samples', assume=y.ok)
            c.ob(f'{src}/samples={n}', 'sample k == solution at k*dt/n', traj, 'BaseODESolverDynamics._step')
    # early termination and unsupported combinations are errors
    for e in ENTITIES:
        for n in (0, 3):
            if n and not e.samples:
                continue
            c.world(True)

            def fail(e=e, n=n):
                o = construct(c, e, **({'trajectory_samples': n} if n else {}))
                before = vcells(c, o, 'state')
                out = step(c, o, DT(), action(c, 'list', syms(len(e.controls), 'u')))
                bad = c_not(ivp_ok(c))
                if not solved_events(out):
                    raise Undecided('no solver call')
                refuse(c, out, f'{e.key}.step() when the solver stops early', bad)
                for st, exc, cls in out.raises:
                    after = state_in(c, st, o)
                    for i, (a, b) in enumerate(zip(after, before)):
                        c.eq(a, b, f'{e.key}: state component {i} after a failed step', assume=c_and(st.pc, bad))
            c.ob(f'{e.key}/solver-failure{"/samples" if n else ""}', 'a solver that stops early raises and leaves the entity as it was', fail, 'BaseODESolverDynamics._step')
    for key, kw in (('unknown-method', {'integration_method': 'RK4'}), ('empty-method', {'integration_method': ''}), ('lower-case', {'integration_method': 'rk45'}),
                    ('RK45_JAX-without-jax', {'integration_method': 'RK45_JAX'}),
                    ('Euler-samples', {'integration_method': 'Euler', 'trajectory_samples': 2}),
                    ('RK45_JAX-samples', {'integration_method': 'RK45_JAX', 'trajectory_samples': 2, 'use_jax': True})):
        for src in ['linear'] + [e.key for e in ENTITIES]:
            e = BY.get(src)
            if e is not None and (('trajectory_samples' in kw and not e.samples) or ('use_jax' in kw and not e.jax) or (key == 'RK45_JAX-without-jax' and e.key == 'SunEntity')):
                continue
            c.world(True)

            def ob(kw=kw, src=src, e=e, key=key):
                k = {n: (v if isinstance(v, str) else lift_(v)) for n, v in kw.items()}
                w = c.w
                if e is None:
                    out = w.call(c.api('base_models.BaseLinearODESolverDynamics'), A=w.arr(syms(4, 'A'), (2, 2)), B=w.arr(syms(2, 'B'), (2, 1)), **k)
                    if out.state is None:
                        return
                    o = out.value
                    out = w.method(o, 'step', VNum(DT(), 'float'), w.arr(syms(2, 's')), w.arr(syms(1, 'u')))
                else:
                    out = w.call(c.api(e.path), name='ego', **k)
                    if out.state is None:
                        return
                    out = step(c, out.value, DT(), action(c, 'list', [T(0)] * len(e.controls)))
                refuse(c, out, f'{src} with {key}')
            c.ob(f'{src}/{key}', 'unsupported integration settings raise instead of returning a state', ob, 'BaseODESolverDynamics._step')


def lift_(v):
    return VBool(TRUE if v else FALSE) if isinstance(v, bool) else v


def solved_events(out):
    return [e for e in out.events if e['kind'] == 'solve_ivp']


def refuse(c, out, what, when=TRUE):
    """any exception counts as a refusal; a normal return does not"""
    c.atoms += 1
    if out.state is None:
        return
    g = c_and(out.ok_pc, when)
    if g is FALSE:
        return
    from .. import witness as wit
    w, n = wit.cond_true(g, TRUE, 240)
    if w is not None:
        c.fail(f'{what}: returns normally instead of raising', {k: str(v) for k, v in w.items()})
    if not c.infeasible(g):
        raise Undecided(f'{what}: normal return not excluded')


def state_in(c, st, o):
    """state vector of an entity in another exit state"""
    it = c.w.it
    save, it.st = it.st, st
    try:
        return vcells(c, o, 'state')
    finally:
        it.st = save


# ---------------------------------------------------------------------- P08
def p08(c):
    for e in ENTITIES:
        for m_ in e.methods:
            c.world(True)

            def ob(e=e, m_=m_):
                o = construct(c, e, **method_kw(e, m_))
                d = vget(c, o, 'dynamics')
                y = Sys(d, e.n, len(e.controls), [None] * e.n, [None] * e.n, [None] * e.n, [None] * e.n, [None] * e.n, m_ == 'RK45_JAX', m_, s0(e))
                cmd = syms(len(e.controls), 'u')
                out = step(c, o, DT(), action(c, 'array', cmd))
                ok = ivp_ok(c)
                c.returns(out, f'{e.key}.step()', assume=ok)
                y.events = out.events
                end, rep = vcells(c, o, 'state', e.n), vcells(c, o, 'state_dot')
                c.sure(len(rep) == e.n, f'{e.key}: state_dot has {len(rep)} elements')
                y.u = [clip(x, T(a), T(b)) for x, a, b in zip(cmd, e.cmin, e.cmax)]
                raw = raw_end(c, y, DT())
                at = []
                for i in range(e.n):
                    if i in e.lim:
                        at.append(clip(raw[i], *e.lim[i]))         # inside its limits, hence (for angles) inside its turn
                    else:
                        at.append(wrap(raw[i]) if i in e.wrap else raw[i])
                    c.eq(end[i], at[i], f'{e.key}: end state {e.slots[i]}', assume=ok)
                    at[i] = end[i]
                want = derivative(c, d, at, y.u, jx='jax' if y.jx else None)[0]
                for i in range(e.n):
                    c.eq(rep[i], want[i], f'{e.key}: reported derivative of {e.slots[i]} vs derivative at the end state', assume=ok)
            c.ob(f'{e.key}/{m_}', 'state_dot after a step == derivative at the end state under the applied control', ob, 'BaseODESolverDynamics._step')
    for m_ in ('RK45', 'Euler', 'RK45_JAX'):
        for n in ((0, 2) if m_ == 'RK45' else (0,)):
            c.world(True)

            def lin(m_=m_, n=n):
                y = linear(c, 2, 1, 'vector', 'vector' if n else 'none', None, m_ == 'RK45_JAX', m_, n)
                nxt, dot = dstep(c, y, DT(), f'linear/{m_}: step')
                f = f_of(c, y, nxt, y.u, DT())
                for i in range(2):
                    c.eq(dot[i], f[i], f'linear/{m_}: reported derivative of component {i}', assume=y.ok)
            c.ob(f'linear/{m_}/samples={n}', 'reported derivative == derivative at the end state', lin, 'BaseODESolverDynamics._step')
        for lim in ('none', 'vector'):
            c.world(True)

            def turned(m_=m_, lim=lim):
                # a component wrapped around a centre: the derivative is that of the wrapped value the step returns
                y = linear(c, 2, 1, 'none', 'none', {0: tm.sym('centre')}, m_ == 'RK45_JAX', m_, 0)
                if lim == 'vector':
                    c.w.it.setattr(y.d, 'state_min', c.w.arr([-tm.INF, tm.sym('lo')]))
                nxt, dot = dstep(c, y, DT(), f'linear/{m_}: step')
                r = y.raw(nxt, y.u)
                if lim == 'vector':
                    r = [r[0], tm.ite(tm.le0(nxt[1] - tm.sym('lo')), tm.tmax(r[1], T(0)), r[1])]
                for i in range(2):
                    c.eq(dot[i], r[i], f'linear/{m_}: reported derivative of component {i} of a model with an angle', assume=y.ok)
            c.ob(f'linear/{m_}/angle/{lim}', 'reported derivative == derivative at the wrapped end state', turned, 'BaseODESolverDynamics._step')
    for key, base, m_, lim in user_systems():
        c.world(True)

        def user(key=key, base=base, m_=m_, lim=lim):
            y = timed(c, 2, 1, lim, 'none', m_ == 'RK45_JAX', m_, 0, base)
            nxt, dot = dstep(c, y, DT(), f'{key}: step')
            want = y.user(DT(), nxt, y.u)
            for i in range(2):
                c.eq(dot[i], y.rate_limit(want[i], nxt[i], i), f'{key}: reported derivative of component {i}', assume=y.ok)
        c.ob(key, 'reported derivative == derivative of a user-defined model at the end of the step', user, 'BaseODESolverDynamics._step')
    # the entity stores exactly what its dynamics report
    for e in ENTITIES:
        c.world(True)

        def store(e=e):
            o = construct(c, e)
            pr = Probe(c, e, o)
            c.returns(step(c, o, DT(), action(c, 'list', syms(len(e.controls), 'u'))), f'{e.key}.step()')
            for i, (a, b) in enumerate(zip(vcells(c, o, 'state_dot', e.n), pr.dot)):
                c.eq(a, b, f'{e.key}.state_dot[{i}] after a step')
            for i, (a, b) in enumerate(zip(vcells(c, o, 'state', e.n), pr.next)):
                c.eq(a, b, f'{e.key}.state[{i}] after a step')
        c.ob(f'{e.key}/stored', 'entity reports the state and derivative its dynamics returned', store, 'BaseEntity.step')
