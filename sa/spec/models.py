"""P03 actuator axes, P13 Clohessy-Wiltshire, P14 attitude, P15 body thrust, P16 Dubins, P17 integrators."""
from __future__ import annotations

from .common import *
from .control import Probe

SIN, COS = (lambda t: tm.fn('sin', T(t))), (lambda t: tm.fn('cos', T(t)))


def unit_quat(pre='h'):
    """every unit quaternion, by hyperspherical angles (scalar last)"""
    a, b, d = tm.sym(pre + 'a'), tm.sym(pre + 'b'), tm.sym(pre + 'c')
    return [SIN(a) * COS(b), SIN(a) * SIN(b) * COS(d), SIN(a) * SIN(b) * SIN(d), COS(a)]


def rotmat(q):
    """matrix of the rotation v -> q v q* for a unit quaternion, scalar last"""
    x, y, z, w = q
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]


def cw(n, r, v):
    """Clohessy-Wiltshire acceleration; planar for two components"""
    a = [3 * n * n * r[0] + 2 * n * v[1], -2 * n * v[0]]
    if len(r) == 3:
        a.append(-n * n * r[2])
    return a


def unlimit(c, d):
    """remove all limits of a dynamics object through its public attributes"""
    inf = c.w.it.ext.inf if hasattr(c.w.it.ext, 'inf') else None
    for name, s in (('state_min', -1), ('state_max', 1), ('state_dot_min', -1), ('state_dot_max', 1)):
        c.w.it.setattr(d, name, VNum(tm.INF * s, 'float'))


def inertia(c, I, kind='matrix'):
    z = T(0)
    cells_ = [I[0], z, z, z, I[1], z, z, z, I[2]]
    return c.w.it.mkarr(cells_, (3, 3), 'float64', None, kind == 'matrix')


P = lambda n: tm.sym(n, 'pos')


def sym_params(c, e):
    """symbolic physical parameters for an entity constructor -> (kwargs, dict of terms)"""
    if e.key.startswith('Integrator'):
        t = {'m': P('m'), 'damping': tm.sym('damping', 'nonneg')}
        return {k: VNum(v, 'float') for k, v in t.items()}, t
    if e.key == 'CWHSpacecraft':
        t = {'m': P('m'), 'n': P('n')}
        return {k: VNum(v, 'float') for k, v in t.items()}, t
    if e.key == 'CWHRotation2dSpacecraft':
        t = {'m': P('m'), 'n': P('n'), 'inertia': P('inertia')}
        return {k: VNum(v, 'float') for k, v in t.items()}, t
    if e.key == 'SixDOFSpacecraft':
        t = {'m': P('m'), 'n': P('n')}
        k = {k: VNum(v, 'float') for k, v in t.items()}
        t['I'] = [P('I1'), P('I2'), P('I3')]
        k['inertia_matrix'] = inertia(c, t['I'])
        return k, t
    if e.key == 'SunEntity':
        t = {'n': tm.sym('sun_rate')}
        return {'n': VNum(t['n'], 'float')}, t
    return {}, {}


def ent_dyn(c, e, jx=False, method='RK45', default=False, quat=None, **kw):
    """(entity, its dynamics without limits, parameter terms, state terms)"""
    if default:
        k, t = {}, None
    else:
        k, t = sym_params(c, e)
    k.update(kw)
    if jx:
        k['use_jax'] = True
    o = construct(c, e, **k)
    d = vget(c, o, 'dynamics')
    unlimit(c, d)
    s = s0(e)
    if e.quat and quat is not None:
        for i, q in zip(e.quat, quat):
            s[i] = q
    return o, d, t, s


def rate(c, d, s, u, jx=None, t=None):
    out, _ = derivative(c, d, s, u, t=t, jx='jax' if jx else None)
    c.sure(len(out) == len(s), f'state derivative has {len(out)} elements for {len(s)} states')
    return out


# ---------------------------------------------------------------------- P03
def axis(e, name, s, hill=False):
    """unit direction in derivative space a positive command on `name` must act along"""
    v = [T(0)] * e.n
    ix = {k: i for i, k in enumerate(e.slots)}
    if e.key == 'CWHRotation2dSpacecraft' and name.startswith('thrust'):
        th = s[2]
        a = {'thrust_x': (COS(th), SIN(th)), 'thrust_y': (-SIN(th), COS(th))}[name]
        v[3], v[4] = a
        return v
    if e.key == 'SixDOFSpacecraft' and name.startswith('thrust') and not hill:
        R = rotmat([s[i] for i in e.quat])
        j = 'xyz'.index(name[-1])
        for i in range(3):
            v[7 + i] = R[i][j]
        return v
    slot = {'heading_rate': 'heading', 'acceleration': 'v', 'gamma_rate': 'gamma', 'roll_rate': 'roll'}.get(name)
    if slot is None:
        slot = {'thrust': f'{name[-1]}_dot', 'moment': f'w{name[-1]}'}[name.split('_')[0]]
    v[ix[slot]] = T(1)
    return v


def p03(c):
    for e in ENTITIES:
        if not e.controls:
            continue
        c.world(True)

        def bij(e=e):
            o = construct(c, e)
            n = len(e.controls)
            c.w.it.setattr(o, 'control_min', VNum(-tm.INF, 'float'))
            c.w.it.setattr(o, 'control_max', VNum(tm.INF, 'float'))
            pr = Probe(c, e, o)
            val = [tm.sym('a_' + k) for k in e.controls]
            c.returns(step(c, o, DT(), action(c, 'dict', val, e.controls)), f'{e.key}.step(all actuators)')
            ctl = pr.one(c, f'{e.key}.step(all actuators)')
            c.sure(len(ctl) == n, f'{e.key}: {n} actuators but {len(ctl)} control channels')
            for k, v in zip(e.controls, val):
                c.sure(sum(1 for x in ctl if x == v) == 1, f'{e.key}: actuator {k} drives {sum(1 for x in ctl if x == v)} control channels '
                       f'(control vector: {[tm.show(x) for x in ctl]})')
        c.ob(f'{e.key}/one-to-one', 'the actuator names cover the control vector one-to-one', bij, e.path)
        for jx, hill in ([(False, False), (True, False)] if e.jax else [(False, False)]) + ([(False, True)] if e.key == 'SixDOFSpacecraft' else []):
            for name in e.controls:
                c.world(True)

                def resp(e=e, name=name, jx=jx, hill=hill):
                    o, d, t, s = ent_dyn(c, e, jx, quat=unit_quat(), **({'body_frame_thrust': VBool(FALSE)} if hill else {}))
                    c.w.it.setattr(o, 'control_min', VNum(-tm.INF, 'float'))
                    c.w.it.setattr(o, 'control_max', VNum(tm.INF, 'float'))
                    a = tm.sym('a')
                    pr = Probe(c, e, o)
                    c.returns(step(c, o, DT(), action(c, 'dict', [a], [name])), f'{e.key}.step({name})')
                    u = pr.one(c, f'{e.key}.step({name})')
                    r1 = rate(c, d, s, u, jx)
                    r0 = rate(c, d, s, [T(0)] * len(u), jx)
                    ax = axis(e, name, s, hill)
                    diff = [x - y for x, y in zip(r1, r0)]
                    k = T(0)
                    for x, v in zip(diff, ax):
                        k = k + x * v
                    for i in range(e.n):
                        c.eq(diff[i], k * ax[i], f'{e.key}: response of the {e.slots[i]} derivative to {name}')
                    kap = tm.substitute(k, {a: T(1)})
                    c.eq(k, kap * a, f'{e.key}: response to {name} is proportional to the command')
                    c.le(T(0), kap, f'{e.key}: response to {name} is in the positive direction', strict=True)
                    if kap.is_zero():
                        c.fail(f'{e.key}: {name} has no effect')
                c.ob(f'{e.key}/{name}{"/jax" if jx else ""}{"/hill" if hill else ""}', 'a command accelerates only along its own axis, in the positive direction', resp, e.dyn)


# ---------------------------------------------------------------------- P13
def drift_ob(c, e, jx, default, kw=None, tag=''):
    c.world(True)

    def ob():
        o, d, t, s = ent_dyn(c, e, jx, default=default, quat=unit_quat(), **(kw or {}))
        m, n = (t['m'], t['n']) if t else (T(12), T(N_DEF))
        ix = {k: i for i, k in enumerate(e.slots)}
        dims = [k for k in ('x', 'y', 'z') if k in ix]
        r = [s[ix[k]] for k in dims]
        v = [s[ix[k + '_dot']] for k in dims]
        f = [T(0)] * len(e.controls)
        hill = e.key == 'CWHSpacecraft' or bool(kw and 'body_frame_thrust' in kw)
        if hill:
            f = [tm.sym(f'F{k}') for k in dims] + [tm.sym(f'M{i}') for i in range(len(e.controls) - 3)]
        out = rate(c, d, s, f, jx)
        acc = cw(n, r, v)
        for i, k in enumerate(dims):
            c.eq(out[ix[k]], v[i], f'{e.key}: d{k}/dt')
            c.eq(out[ix[k + '_dot']], acc[i] + (f[i] / m if hill else T(0)), f'{e.key}: d{k}_dot/dt')
    c.ob(f'{e.key}/{"default" if default else "params"}{"/jax" if jx else ""}{tag}', 'derivative of position/velocity == Clohessy-Wiltshire right-hand side', ob, e.dyn)


def p13(c):
    for e in (BY['CWHSpacecraft'], BY['CWHRotation2dSpacecraft'], BY['SixDOFSpacecraft']):
        for jx in ([False, True] if e.jax else [False]):
            for default in (False, True):
                drift_ob(c, e, jx, default)
        if e.key == 'SixDOFSpacecraft':
            for default in (False, True):
                drift_ob(c, e, False, default, {'body_frame_thrust': False}, '/hill-thrust')
    # dynamics classes on their own
    for path, planar in (('cwh.point_model.CWHDynamics', False), ('cwh.rotational_model.CWHRotation2dDynamics', True), ('cwh.sixdof_model.SixDOFDynamics', False)):
        for default in (False, True):
            for jx in ([False, True] if planar else [False]):
                c.world(True)

                def ob(path=path, default=default, jx=jx):
                    e = [x for x in ENTITIES if x.dyn == path][0]
                    k = {} if default else {'m': VNum(P('m'), 'float'), 'n': VNum(P('n'), 'float')}
                    d = dyn(c, e, jx, **k)
                    unlimit(c, d)
                    n = T(N_DEF) if default else P('n')
                    s = s0(e)
                    if e.quat:
                        for i, q in zip(e.quat, unit_quat()):
                            s[i] = q
                    out = rate(c, d, s, [T(0)] * len(e.controls), jx)
                    ix = {k: i for i, k in enumerate(e.slots)}
                    dims = [k for k in ('x', 'y', 'z') if k in ix]
                    acc = cw(n, [s[ix[k]] for k in dims], [s[ix[k + '_dot']] for k in dims])
                    for i, k in enumerate(dims):
                        c.eq(out[ix[k]], s[ix[k + '_dot']], f'{path}: d{k}/dt')
                        c.eq(out[ix[k + '_dot']], acc[i], f'{path}: d{k}_dot/dt')
                c.ob(f'{path}/{"default" if default else "params"}{"/jax" if jx else ""}', 'dynamics object: Clohessy-Wiltshire right-hand side', ob, path)
    for mode in ('2d', '3d', None):
        c.world(True)

        def ob(mode=mode):
            m, n = P('m'), tm.sym('mean_motion')
            a = [VNum(m, 'float'), VNum(n, 'float')]
            if mode:
                a.append(mode)
            v = c.returns(c.w.call(c.api('cwh.point_model.generate_cwh_matrices'), *a), 'generate_cwh_matrices')
            A, B = [c.w.it.res(x) for x in c.w.it.iterate(v)]
            k = 3 if mode == '3d' else 2
            c.sure(tuple(A.shape) == (2 * k, 2 * k) and tuple(B.shape) == (2 * k, k), f'matrix shapes {A.shape}, {B.shape} for mode {mode}')
            A, B = c.w.cells(A), c.w.cells(B)
            s, f = syms(2 * k, 's'), syms(k, 'F')
            acc = cw(n, s[:k], s[k:])
            want = list(s[k:]) + [acc[i] + f[i] / m for i in range(k)]
            for i in range(2 * k):
                got = T(0)
                for j in range(2 * k):
                    got = got + A[i * 2 * k + j] * s[j]
                for j in range(k):
                    got = got + B[i * k + j] * f[j]
                c.eq(got, want[i], f'generate_cwh_matrices({mode}): row {i}')
        c.ob(f'generate_cwh_matrices/{mode or "default"}', 'A s + B F == Clohessy-Wiltshire right-hand side', ob, 'cwh.point_model.generate_cwh_matrices')


# ---------------------------------------------------------------------- P14
def qmul_rate(q, w):
    x, y, z, s = q
    h = T(F(1, 2))
    return [h * (s * w[0] + y * w[2] - z * w[1]), h * (s * w[1] + z * w[0] - x * w[2]), h * (s * w[2] + x * w[1] - y * w[0]),
            -h * (x * w[0] + y * w[1] + z * w[2])]


def rot_apply(c, R, v, what='orientation.apply'):
    return cells(c, c.returns(c.w.method(R, 'apply', c.w.arr([T(x) for x in v])), what), what)


def same_quat(c, got, want, what):
    """equal quaternions up to the common sign (both denote the same attitude)"""
    c.sure(len(got) == 4, f'{what} has {len(got)} elements')
    for i in range(4):
        for j in range(i, 4):
            c.eq(got[i] * got[j], want[i] * want[j], f'{what}: product of components {i},{j}')


def p14(c):
    e = BY['SixDOFSpacecraft']
    for kind in ('matrix', 'array', 'default'):
        for body in (True, False):
            c.world(True)

            def ob(kind=kind, body=body):
                kw = {} if body else {'body_frame_thrust': False}
                if kind == 'default':
                    o, d, t, s = ent_dyn(c, e, default=True, **kw)
                    I = [T(INERTIA)] * 3
                else:
                    I = [P('I1'), P('I2'), P('I3')]
                    o, d, t, s = ent_dyn(c, e, inertia_matrix=inertia(c, I, kind), **kw)
                M = [tm.sym(f'M{k}') for k in 'xyz']
                out = rate(c, d, s, [tm.sym(f'F{k}') for k in 'xyz'] + M)
                q, w = s[3:7], s[10:13]
                want = qmul_rate(q, w)
                for i in range(4):
                    c.eq(out[3 + i], want[i], f'quaternion rate component {i + 1}')
                c.eq(sum((q[i] * out[3 + i] for i in range(4)), T(0)), T(0), 'quaternion rate is orthogonal to the quaternion')
                for i in range(3):
                    j, k = (i + 1) % 3, (i + 2) % 3
                    c.eq(out[10 + i], ((I[j] - I[k]) * w[j] * w[k] + M[i]) / I[i], f'body rate derivative {"xyz"[i]}')
            c.ob(f'SixDOF/{kind}/{"body" if body else "hill"}', 'q\' == q(x)(w,0)/2 and Euler\'s equations', ob, e.dyn)
    c.world(True)

    def ori():
        q = unit_quat()
        init = s0(e)
        init[3:7] = q
        o = construct(c, e, init=init)
        R = vget(c, o, 'orientation')
        m = rotmat(q)
        for j in range(3):
            v = rot_apply(c, R, [1 if i == j else 0 for i in range(3)])
            for i in range(3):
                c.eq(v[i], m[i][j], f'orientation applied to the body {"xyz"[j]} axis, component {i}')
        same_quat(c, vcells(c, o, 'quaternion'), q, 'quaternion')
        w = vcells(c, o, 'angular_velocity', 3)
        for i in range(3):
            c.eq(w[i], init[10 + i], f'angular_velocity[{i}]')
    c.ob('SixDOF/orientation', 'orientation is the rotation of the state quaternion', ori, e.path)
    e2 = BY['CWHRotation2dSpacecraft']
    for jx in (False, True):
        for default in (False, True):
            c.world(True)

            def ob(jx=jx, default=default):
                o, d, t, s = ent_dyn(c, e2, jx, default=default)
                M = tm.sym('M')
                out = rate(c, d, s, [tm.sym('Fx'), tm.sym('Fy'), M], jx)
                c.eq(out[2], s[5], 'theta rate')
                c.eq(out[5], M / (T(INERTIA) if default else t['inertia']), 'wz rate')
            c.ob(f'Rotation2d/{"default" if default else "params"}{"/jax" if jx else ""}', "theta' == wz, wz' == M/I", ob, e2.dyn)
    c.world(True)

    def ori2():
        o = construct(c, e2)
        th = s0(e2)[2]
        want = [T(0), T(0), SIN(th / 2), COS(th / 2)]
        same_quat(c, vcells(c, o, 'quaternion'), want, 'quaternion')
        q = vcells(c, o, 'quaternion')
        for i in range(4):
            c.eq(cells(c, vget(c, o, f'q{i + 1}'))[0], q[i], f'q{i + 1}')
        R = vget(c, o, 'orientation')
        m = [[COS(th), -SIN(th), T(0)], [SIN(th), COS(th), T(0)], [T(0), T(0), T(1)]]
        for j in range(3):
            v = rot_apply(c, R, [1 if i == j else 0 for i in range(3)])
            for i in range(3):
                c.eq(v[i], m[i][j], f'orientation applied to the body {"xyz"[j]} axis, component {i}')
        w = vcells(c, o, 'angular_velocity', 3)
        for i, x in enumerate([T(0), T(0), s0(e2)[5]]):
            c.eq(w[i], x, f'angular_velocity[{i}]')
        for k, x in (('wx', T(0)), ('wy', T(0)), ('wz', s0(e2)[5])):
            c.eq(cells(c, vget(c, o, k))[0], x, k)
    c.ob('Rotation2d/orientation', 'orientation is the rotation by theta about z', ori2, e2.path)
    for path in ('cwh.point_model.CWHSpacecraft', 'integrators.Integrator1d', 'integrators.Integrator2d', 'integrators.Integrator3d'):
        c.world(True)

        def ident(path=path):
            ee = [x for x in ENTITIES if x.path == path][0]
            R = vget(c, construct(c, ee), 'orientation')
            for j in range(3):
                v = rot_apply(c, R, [1 if i == j else 0 for i in range(3)])
                for i in range(3):
                    c.eq(v[i], T(1 if i == j else 0), f'orientation of a point mass, axis {j}')
        c.ob(f'{path}/orientation', 'a point mass has the identity orientation', ident, path)


# ---------------------------------------------------------------------- P15
def p15(c):
    for e in (BY['CWHRotation2dSpacecraft'], BY['SixDOFSpacecraft']):
        for jx in ([False, True] if e.jax else [False]):
            for default in (False, True):
                c.world(True)

                def ob(e=e, jx=jx, default=default):
                    o, d, t, s = ent_dyn(c, e, jx, default=default, quat=unit_quat())
                    m = T(12) if default else t['m']
                    k = 3 if e.quat else 2
                    f = [tm.sym(f'F{x}') for x in 'xyz'[:k]]
                    mom = [tm.sym(f'M{i}') for i in range(len(e.controls) - k)]
                    r1 = rate(c, d, s, f + mom, jx)
                    r0 = rate(c, d, s, [T(0)] * k + mom, jx)
                    if e.quat:
                        R = rotmat([s[i] for i in e.quat])
                    else:
                        R = [[COS(s[2]), -SIN(s[2])], [SIN(s[2]), COS(s[2])]]
                    ix = {n: i for i, n in enumerate(e.slots)}
                    want = {ix['xyz'[i] + '_dot']: sum((R[i][j] * f[j] for j in range(k)), T(0)) / m for i in range(k)}
                    for i in range(e.n):
                        c.eq(r1[i] - r0[i], want.get(i, T(0)), f'{e.key}: thrust contribution to d{e.slots[i]}/dt')
                c.ob(f'{e.key}/{"default" if default else "params"}{"/jax" if jx else ""}', 'thrust contribution == R(attitude) F / m on the velocity slots', ob, e.dyn)
    # direct dynamics objects and the constructor default of the thrust frame
    c.world(True)

    def direct():
        e = BY['SixDOFSpacecraft']
        d = dyn(c, e, False, m=P('m'))
        unlimit(c, d)
        s = s0(e)
        q = unit_quat()
        for i, x in zip(e.quat, q):
            s[i] = x
        f = [tm.sym(f'F{x}') for x in 'xyz']
        r1, r0 = rate(c, d, s, f + [T(0)] * 3), rate(c, d, s, [T(0)] * 6)
        R = rotmat(q)
        for i in range(3):
            c.eq(r1[7 + i] - r0[7 + i], sum((R[i][j] * f[j] for j in range(3)), T(0)) / P('m'), f'SixDOFDynamics: thrust contribution {i}')
    c.ob('SixDOFDynamics/default-frame', 'thrust is body-frame by default', direct, 'cwh.sixdof_model.SixDOFDynamics')
    for via in ('entity', 'dynamics'):
        c.world(True)

        def hill(via=via):
            # thrust in Hill's frame does not see the attitude, whatever its length
            e = BY['SixDOFSpacecraft']
            m = P('m')
            if via == 'entity':
                d = vget(c, construct(c, e, m=VNum(m, 'float'), body_frame_thrust=False), 'dynamics')
            else:
                d = dyn(c, e, False, m=m, body_frame_thrust=False)
            unlimit(c, d)
            s = s0(e)
            f, mom = [tm.sym(f'F{x}') for x in 'xyz'], [tm.sym(f'M{x}') for x in 'xyz']
            r1, r0 = rate(c, d, s, f + mom), rate(c, d, s, [T(0)] * 3 + mom)
            for i in range(e.n):
                c.eq(r1[i] - r0[i], f[i - 7] / m if 7 <= i < 10 else T(0), f'thrust in Hill\'s frame: contribution to d{e.slots[i]}/dt')
        c.ob(f'SixDOF/hill-frame/{via}', "thrust in Hill's frame contributes F/m whatever the attitude", hill, 'cwh.sixdof_model.SixDOFDynamics')
    c.world(True)

    def rotate():
        e = BY['SixDOFSpacecraft']
        d = dyn(c, e)
        q = unit_quat()
        v = [tm.sym(f'v{i}') for i in range(3)]
        out = c.w.method(d, 'apply_quat', c.w.arr(v), c.w.arr(q))
        got = cells(c, c.returns(out, 'apply_quat'))
        R = rotmat(q)
        c.sure(len(got) == 3, f'apply_quat returns {len(got)} elements')
        for i in range(3):
            c.eq(got[i], sum((R[i][j] * v[j] for j in range(3)), T(0)), f'apply_quat component {i}')
    if c.w.it.class_lookup(c.api('cwh.sixdof_model.SixDOFDynamics'), 'apply_quat')[1] is not None:
        c.ob('SixDOFDynamics/rotate-vector', 'quaternion application == rotation matrix times vector', rotate, 'cwh.sixdof_model.SixDOFDynamics.apply_quat')


# ---------------------------------------------------------------------- P16
def p16(c):
    for e in (BY['Dubins2dAircraft'], BY['Dubins3dAircraft']):
        for via in ('entity', 'dynamics', 'g') if e.key.endswith('3dAircraft') else ('entity', 'dynamics'):
            c.world(True)

            def ob(e=e, via=via):
                g = T(F('32.17'))
                if via == 'entity':
                    o, d, t, s = ent_dyn(c, e)
                else:
                    kw = {}
                    if via == 'g':
                        g = P('g')
                        kw = {'g': g}
                    d = dyn(c, e, **kw)
                    s = s0(e)
                u = [tm.sym(f'u_{k}') for k in e.controls]
                out = rate(c, d, s, u)
                ix = {k: s[i] for i, k in enumerate(e.slots)}
                v, h = ix['v'], ix['heading']
                if e.key == 'Dubins2dAircraft':
                    want = [v * COS(h), v * SIN(h), u[0], u[1]]
                else:
                    ga, ro = ix['gamma'], ix['roll']
                    want = [v * COS(h) * COS(ga), v * SIN(h) * COS(ga), -v * SIN(ga), g / v * SIN(ro) / COS(ro), u[0], u[1], u[2]]
                for i in range(e.n):
                    c.eq(out[i], want[i], f'{e.key}: d{e.slots[i]}/dt')
            c.ob(f'{e.key}/{via}', 'derivative == Dubins kinematics', ob, e.dyn)
        c.world(True)

        def acc(e=e):
            o = construct(c, e)
            s = s0(e)
            ix = {k: i for i, k in enumerate(e.slots)}

            def readings(st, dot, tag):
                h, v = st[ix['heading']], st[ix['v']]
                ga = st[ix['gamma']] if 'gamma' in ix else T(0)
                ro = st[ix['roll']] if 'roll' in ix else T(0)
                dirn = [COS(ga) * COS(h), COS(ga) * SIN(h), -SIN(ga)]
                vel, a = vcells(c, o, 'velocity', 3), vcells(c, o, 'acceleration', 3)
                for i in range(3):
                    c.eq(vel[i], v * dirn[i], f'{e.key}: velocity[{i}] {tag}')
                    c.eq(a[i], dot * dirn[i], f'{e.key}: acceleration[{i}] {tag}')
                for n_, x in (('heading', h), ('yaw', h), ('gamma', ga), ('pitch', ga), ('roll', ro), ('v', v)):
                    c.eq(cells(c, vget(c, o, n_))[0], x, f'{e.key}: {n_} {tag}')
                R = vget(c, o, 'orientation')
                ch, sh, cg, sg, cr, sr = COS(h), SIN(h), COS(ga), SIN(ga), COS(ro), SIN(ro)
                m = [[ch * cg, ch * sg * sr - sh * cr, ch * sg * cr + sh * sr], [sh * cg, sh * sg * sr + ch * cr, sh * sg * cr - ch * sr], [-sg, cg * sr, cg * cr]]
                for j in range(3):
                    vv = rot_apply(c, R, [1 if i == j else 0 for i in range(3)])
                    for i in range(3):
                        c.eq(vv[i], m[i][j], f'{e.key}: orientation of axis {j}, component {i} {tag}')
            readings(s, T(0), 'initially')
            pr = Probe(c, e, o)
            pr.next[ix['v']] = tm.sym('next_v', 'pos')
            c.returns(step(c, o, DT(), None), f'{e.key}.step()')
            readings(pr.next, pr.dot[ix['v']], 'after a step')
        c.ob(f'{e.key}/accessors', 'velocity, acceleration, yaw/pitch/roll and orientation report the same motion', acc, e.path)


# ---------------------------------------------------------------------- P17
def p17(c):
    for k in (1, 2, 3):
        e = BY[f'Integrator{k}d']
        for default in (False, True):
            for m_ in e.methods:
                c.world(True)

                def ob(e=e, default=default, k=k, m_=m_):
                    o, d, t, s = ent_dyn(c, e, default=default, integration_method=m_)
                    m, b = (T(1), T(0)) if default else (t['m'], t['damping'])
                    f = [tm.sym(f'F{i}') for i in range(k)]
                    out = rate(c, d, s, f)
                    for i in range(k):
                        c.eq(out[i], s[k + i], f'{e.key}: d{e.slots[i]}/dt')
                        c.eq(out[k + i], f[i] / m - b * s[k + i], f'{e.key}: d{e.slots[k + i]}/dt')
                    res = step(c, o, DT(), action(c, 'dict', f, e.controls))
                    c.returns(res, f'{e.key}.step under {m_}', assume=ivp_ok(c))
                    c.sure(len(vcells(c, o, 'state')) == 2 * k, f'{e.key}: state length after a step')
                c.ob(f'{e.key}/{"default" if default else "params"}/{m_}', "position' == velocity, velocity' == F/m - damping velocity", ob, e.dyn)
        for default in (False, True):
            c.world(True)

            def direct(e=e, k=k, default=default):
                kw = {} if default else {'m': P('m'), 'damping': tm.sym('damping')}
                m, b = (T(1), T(0)) if default else (P('m'), tm.sym('damping'))
                d = dyn(c, e, **kw)
                s, f = s0(e), [tm.sym(f'F{i}') for i in range(k)]
                out = rate(c, d, s, f)
                for i in range(k):
                    c.eq(out[i], s[k + i], f'IntegratorDynamics {k}d: position rate {i}')
                    c.eq(out[k + i], f[i] / m - b * s[k + i], f'IntegratorDynamics {k}d: velocity rate {i}')
            c.ob(f'IntegratorDynamics/{k}d/{"default" if default else "params"}', 'dynamics object obeys the same law', direct, e.dyn)
        c.world(True)

        def mats(k=k):
            m, b = P('m'), tm.sym('damping')
            v = c.returns(c.w.call(c.api('integrators.generate_dynamics_matrices'), m, b, f'{k}d'), 'generate_dynamics_matrices')
            check_mats(c, v, k, m, b)
        c.ob(f'generate_dynamics_matrices/{k}d', 'A s + B F is the damped point mass', mats, 'integrators.generate_dynamics_matrices')
    c.world(True)

    def mdef():
        v = c.returns(c.w.call(c.api('integrators.generate_dynamics_matrices'), P('m')), 'generate_dynamics_matrices(m)')
        check_mats(c, v, 1, P('m'), T(0))
        d = c.returns(c.w.call(c.api('integrators.IntegratorDynamics')), 'IntegratorDynamics()')
        out, _ = derivative(c, d, syms(2, 's'), [tm.sym('F0')])
        c.eq(out[0], tm.sym('s1'), 'default integrator: position rate')
        c.eq(out[1], tm.sym('F0'), 'default integrator: velocity rate')
    c.ob('generate_dynamics_matrices/defaults', 'defaults: one dimension, no damping', mdef, 'integrators.generate_dynamics_matrices')
    for mode in ('4d', '0d', '', 'x', None, 3):
        for target in ('integrators.generate_dynamics_matrices', 'integrators.IntegratorDynamics'):
            c.world(True)

            def bad(mode=mode, target=target):
                kw = {'m': P('m'), 'damping': T(0), 'mode': mode}
                c.raises(c.w.call(c.api(target), **kw), ['AssertionError', 'ValueError'], f'{target}(mode={mode!r})')
            c.ob(f'{target}/bad-mode/{mode}', 'unsupported dimension refused', bad, target)


def check_mats(c, v, k, m, b):
    A, B = [c.w.it.res(x) for x in c.w.it.iterate(v)]
    c.sure(tuple(A.shape) == (2 * k, 2 * k) and tuple(B.shape) == (2 * k, k), f'matrix shapes {A.shape}, {B.shape} for {k} dimensions')
    A, B = c.w.cells(A), c.w.cells(B)
    for i in range(2 * k):
        for j in range(2 * k):
            w = T(1) if i < k and j == i + k else (-b if i >= k and j == i else T(0))
            c.eq(A[i * 2 * k + j], w, f'{k}d system matrix [{i},{j}]')
        for j in range(k):
            c.eq(B[i * k + j], T(1) / m if i == j + k else T(0), f'{k}d input matrix [{i},{j}]')
