"""Entity descriptors (public API only) and scenario builders shared by the property rules."""
from __future__ import annotations

from fractions import Fraction as F

from .. import terms as tm
from ..terms import T, TRUE, FALSE, c_and, c_or, c_not
from ..values import *
from ..rules import Broken, Undecided, Violation

PI = tm.PI
N_DEF = F('0.001027')
ANG_ACC, ANG_VEL = F('0.017453'), F('0.034907')
WI, WA, WV = F('4.1e-5'), F('181.3'), F('576')
INERTIA = F('0.0573')


class Ent:
    """one entity class: where it lives, what its constructor accepts and what each state slot means"""

    def __init__(self, key, path, dyn, fields, slots, controls, default, **k):
        self.key, self.path, self.dyn = key, path, dyn
        self.fields = fields            # constructor initial value names, in state order
        self.slots = slots              # accessor name of each state slot
        self.controls = controls        # actuator names in control-vector order
        self.default = default          # default initial values that differ from zero
        self.dynkw = k.pop('dynkw', {})
        self.jax = k.pop('jax', False)
        self.quat = k.pop('quat', None)         # slot indices of the attitude quaternion
        self.pos = k.pop('pos')                 # position as slot names / 0
        self.vel = k.pop('vel', None)           # velocity as slot names / 0
        self.wrap = k.pop('wrap', ())           # slots wrapped around zero
        self.lim = k.pop('lim', {})             # slot -> (lo, hi) default state limits
        self.dlim = k.pop('dlim', {})           # slot -> (lo, hi) default derivative limits
        self.cmin = k.pop('cmin', None)
        self.cmax = k.pop('cmax', None)
        self.samples = k.pop('samples', True)
        self.units = k.pop('units', 'meter')
        self.uslots = k.pop('uslots', {})       # constructor field -> unit kind (length, velocity, angle, angrate)
        self.params = k.pop('params', {})       # numeric constructor parameters with their documented defaults
        assert not k, k

    @property
    def n(self):
        return len(self.slots)

    @property
    def methods(self):
        return ['RK45', 'Euler'] + (['RK45_JAX'] if self.jax else [])


_alim = min(ANG_ACC, WI * WA / INERTIA)
_vlim = min(ANG_VEL, WI * WV / INERTIA)
f32 = lambda s: F(s)
ENTITIES = [
    Ent('Integrator1d', 'integrators.Integrator1d', 'integrators.IntegratorDynamics', ['x', 'xdot'], ['x', 'x_dot'], ['thrust_x'], {},
        dynkw={'mode': '1d'}, pos=['x'], vel=['x_dot'], cmin=[-1], cmax=[1], params={'m': 1, 'damping': 0}),
    Ent('Integrator2d', 'integrators.Integrator2d', 'integrators.IntegratorDynamics', ['x', 'y', 'xdot', 'ydot'], ['x', 'y', 'x_dot', 'y_dot'],
        ['thrust_x', 'thrust_y'], {}, dynkw={'mode': '2d'}, pos=['x', 'y'], vel=['x_dot', 'y_dot'], cmin=[-1] * 2, cmax=[1] * 2,
        params={'m': 1, 'damping': 0}),
    Ent('Integrator3d', 'integrators.Integrator3d', 'integrators.IntegratorDynamics', ['x', 'y', 'z', 'xdot', 'ydot', 'zdot'],
        ['x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot'], ['thrust_x', 'thrust_y', 'thrust_z'], {}, dynkw={'mode': '3d'},
        pos=['x', 'y', 'z'], vel=['x_dot', 'y_dot', 'z_dot'], cmin=[-1] * 3, cmax=[1] * 3, params={'m': 1, 'damping': 0}),
    Ent('CWHSpacecraft', 'cwh.point_model.CWHSpacecraft', 'cwh.point_model.CWHDynamics', ['x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot'],
        ['x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot'], ['thrust_x', 'thrust_y', 'thrust_z'], {}, pos=['x', 'y', 'z'],
        vel=['x_dot', 'y_dot', 'z_dot'], cmin=[-1] * 3, cmax=[1] * 3, params={'m': 12, 'n': N_DEF},
        uslots={'x': 'length', 'y': 'length', 'z': 'length', 'x_dot': 'velocity', 'y_dot': 'velocity', 'z_dot': 'velocity'}),
    Ent('CWHRotation2dSpacecraft', 'cwh.rotational_model.CWHRotation2dSpacecraft', 'cwh.rotational_model.CWHRotation2dDynamics',
        ['x', 'y', 'theta', 'x_dot', 'y_dot', 'wz'], ['x', 'y', 'theta', 'x_dot', 'y_dot', 'wz'], ['thrust_x', 'thrust_y', 'moment_z'], {},
        jax=True, pos=['x', 'y', 0], vel=['x_dot', 'y_dot', 0], wrap=(2,), lim={5: (-_vlim, _vlim)},
        dlim={2: (-_vlim, _vlim), 5: (-_alim, _alim)}, cmin=[-1, -1, -_alim * INERTIA], cmax=[1, 1, _alim * INERTIA],
        params={'m': 12, 'inertia': INERTIA, 'ang_acc_limit': ANG_ACC, 'ang_vel_limit': ANG_VEL, 'inertia_wheel': WI, 'acc_limit_wheel': WA,
                'vel_limit_wheel': WV, 'n': N_DEF},
        uslots={'x': 'length', 'y': 'length', 'theta': 'angle', 'x_dot': 'velocity', 'y_dot': 'velocity', 'wz': 'angrate'}),
    Ent('SixDOFSpacecraft', 'cwh.sixdof_model.SixDOFSpacecraft', 'cwh.sixdof_model.SixDOFDynamics',
        ['x', 'y', 'z', 'q1', 'q2', 'q3', 'q4', 'x_dot', 'y_dot', 'z_dot', 'wx', 'wy', 'wz'],
        ['x', 'y', 'z', 'q1', 'q2', 'q3', 'q4', 'x_dot', 'y_dot', 'z_dot', 'wx', 'wy', 'wz'],
        ['thrust_x', 'thrust_y', 'thrust_z', 'moment_x', 'moment_y', 'moment_z'], {'q4': 1}, quat=(3, 4, 5, 6), pos=['x', 'y', 'z'],
        vel=['x_dot', 'y_dot', 'z_dot'], lim={i: (-_vlim, _vlim) for i in (10, 11, 12)}, cmin=[-1] * 3 + [-_alim * INERTIA] * 3,
        cmax=[1] * 3 + [_alim * INERTIA] * 3,
        params={'m': 12, 'ang_acc_limit': ANG_ACC, 'ang_vel_limit': ANG_VEL, 'inertia_wheel': WI, 'acc_limit_wheel': WA, 'vel_limit_wheel': WV,
                'thrust_control_limit': 1, 'n': N_DEF},
        uslots={'x': 'length', 'y': 'length', 'z': 'length', 'x_dot': 'velocity', 'y_dot': 'velocity', 'z_dot': 'velocity', 'wx': 'angrate',
                'wy': 'angrate', 'wz': 'angrate'}),
    Ent('SunEntity', 'cwh.sun_model.SunEntity', 'cwh.sun_model.SunDynamics', ['theta'], ['theta'], [], {}, jax=True, pos=None, cmin=[], cmax=[],
        samples=False, params={'n': N_DEF}, uslots={'theta': 'angle'}),
    Ent('Dubins2dAircraft', 'dubins.Dubins2dAircraft', 'dubins.Dubins2dDynamics', ['x', 'y', 'heading', 'v'], ['x', 'y', 'heading', 'v'],
        ['heading_rate', 'acceleration'], {'v': 200}, pos=['x', 'y', 0], wrap=(2,), lim={3: (F(200), F(400))},
        cmin=[F('-0.174533'), F('-96.5')], cmax=[F('0.174533'), F('96.5')], units='foot',
        params={'v_min': 200, 'v_max': 400, 'heading_rate_control_min': F('-0.174533'), 'heading_rate_control_max': F('0.174533'),
                'acceleration_control_min': F('-96.5'), 'acceleration_control_max': F('96.5')},
        uslots={'x': 'length', 'y': 'length', 'heading': 'angle', 'v': 'velocity'}),
    Ent('Dubins3dAircraft', 'dubins.Dubins3dAircraft', 'dubins.Dubins3dDynamics', ['x', 'y', 'z', 'heading', 'gamma', 'roll', 'v'],
        ['x', 'y', 'z', 'heading', 'gamma', 'roll', 'v'], ['gamma_rate', 'roll_rate', 'acceleration'], {'v': 200}, pos=['x', 'y', 'z'],
        wrap=(3, 4, 5), lim={4: (F('-0.349066'), F('0.349066')), 5: (F('-1.047198'), F('1.047198')), 6: (F(200), F(400))},
        cmin=[F('-0.174533'), F('-0.087266'), F('-96.5')], cmax=[F('0.174533'), F('0.087266'), F('96.5')], units='foot',
        params={'v_min': 200, 'v_max': 400, 'gamma_min': F('-0.349066'), 'gamma_max': F('0.349066'), 'roll_min': F('-1.047198'),
                'roll_max': F('1.047198'), 'gamma_rate_control_min': F('-0.174533'), 'gamma_rate_control_max': F('0.174533'),
                'roll_rate_control_min': F('-0.087266'), 'roll_rate_control_max': F('0.087266'), 'acceleration_control_min': F('-96.5'),
                'acceleration_control_max': F('96.5')},
        uslots={'x': 'length', 'y': 'length', 'z': 'length', 'heading': 'angle', 'gamma': 'angle', 'roll': 'angle', 'v': 'velocity'}),
]
BY = {e.key: e for e in ENTITIES}
DT = lambda: tm.sym('dt', 'pos')


def pos_sym(name):
    return VNum(tm.sym(name, 'pos'), 'float')


def s0(e, pre='s'):
    """symbolic initial value of each state slot"""
    out = []
    for i, f in enumerate(e.slots):
        out.append(tm.sym(f'{pre}_{f}', 'pos') if f == 'v' else tm.sym(f'{pre}_{f}'))
    return out


def construct(c, e, pre='s', name='ego', init=None, **kw):
    """entity with symbolic initial values; Ob fails when construction raises"""
    w = c.w
    k = {'name': name}
    vals = init if init is not None else s0(e, pre)
    for f, t in zip(e.fields, vals):
        if t is not None:
            k[f] = VNum(T(t), 'float')
    k.update(kw)
    out = w.call(c.api(e.path), **k)
    return c.returns(out, f'{e.key}({", ".join(k)})')


def method_kw(e, method):
    k = {'integration_method': method}
    if method == 'RK45_JAX':
        k['use_jax'] = True
    return k


def vget(c, o, name, what=None):
    """public attribute of an object as a value; raising is a violation"""
    return c.returns(c.w.attr(o, name), what or f'.{name}')


def cells(c, v, what='value'):
    r = c.w.cells(v)
    if r is None:
        c.sure(c.w.it.res(v) is not None, f'{what} is None')
        raise Undecided(f'{what} is not numeric')
    return r


def vcells(c, o, name, n=None):
    r = cells(c, vget(c, o, name), name)
    if n is not None:
        c.sure(len(r) == n, f'{name} has {len(r)} elements, {n} required')
    return r


def action(c, kind, terms, names=None):
    """control command as one of the supported action forms"""
    w = c.w
    if kind == 'none':
        return None
    if kind == 'dict':
        return w.it.mkdict([(k, VNum(T(t), 'float')) for k, t in zip(names, terms)])
    if kind == 'list':
        return w.list([VNum(T(t), 'float') for t in terms])
    if kind == 'jax':
        return w.arr(terms, dt='float32', jx='jax')
    return w.arr(terms)


def step(c, o, dt, act, what='step'):
    out = c.w.method(o, 'step', VNum(T(dt), 'float'), act)
    return out


def clip(t, lo, hi):
    return tm.tmin(tm.tmax(T(t), T(lo)), T(hi))


def dyn(c, e, use_jax=False, **kw):
    """dynamics object of an entity class"""
    k = dict(e.dynkw)
    k.update(kw)
    if use_jax:
        k['use_jax'] = True
    return c.returns(c.w.call(c.api(e.dyn), **k), e.dyn)


def derivative(c, d, state, control, t=None, jx=None, dt='float64'):
    """public derivative evaluation on symbolic arguments -> (cells, Outcome)"""
    w = c.w
    s = w.arr(state, dt=dt, jx=jx)
    u = w.arr(control, jx=jx) if control is not None else w.arr([], (0,), jx=jx)
    out = w.method(d, 'compute_state_dot', VNum(T(t if t is not None else tm.sym('t')), 'float'), s, u)
    v = c.returns(out, 'compute_state_dot')
    return cells(c, v, 'state derivative'), out


def syms(n, pre):
    return [tm.sym(f'{pre}{i}') for i in range(n)]


def ivp_ok(c):
    """condition under which every numerical solve logged so far succeeded"""
    out = TRUE
    for ev in c.w.it.log:
        if ev['kind'] == 'solve_ivp':
            out = c_and(out, tm.c_lit(('pred', 'ivp_success', tuple(ev['der']) + (ev['t0'], ev['t1']) + tuple(ev['y0']))))
    return out
