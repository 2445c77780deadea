"""P18 units, P19 refused configurations, P20 JAX-less package, P21 JAX backend."""
from __future__ import annotations

from .common import *
from ..libphys import parse_unit, u_mul
from .history import construct, s0, props, peek, view, same, accessors, facing, newstate, jaxes
from .stepping import linear

KIND = {'length': ['meter', 'foot', 'kilometer', 'nautical_mile', 'inch', 'mile', 'centimeter', 'feet', 'km'],
        'velocity': ['meter/second', 'foot/second', 'knot', 'kilometer/hour', 'mile/hour', 'foot/minute', 'km/s'],
        'angle': ['radian', 'degree', 'turn', 'arcminute', 'deg'],
        'angrate': ['radian/second', 'degree/second', 'rpm', 'degree/minute', 'turn/hour']}
WRONG = {'length': ['second', 'meter/second', 'kilogram', 'radian', 'meter**2'],
         'velocity': ['meter', 'second', 'radian', 'meter/second**2', 'radian/second'],
         'angle': ['second', 'meter', 'radian/second', 'kilogram'],
         'angrate': ['radian', 'meter/second', 'second', 'degree/second**2', 'meter']}


def own(e, kind):
    """the unit an entity keeps quantities of one kind in"""
    L, S, A = parse_unit(e.units), parse_unit('second'), parse_unit('radian')
    return {'length': L, 'velocity': u_mul(L, S, -1), 'angle': A, 'angrate': u_mul(A, S, -1),
            'acceleration': u_mul(u_mul(L, S, -1), S, -1), 'angacc': u_mul(u_mul(A, S, -1), S, -1), 'time': S}[kind]


def qty(t, unit, dt='float'):
    return VNative('quantity', m=VNum(T(t), dt), u=VNative('unit', u=parse_unit(unit)))


def kind_of(e, name):
    for suf in ('_with_units', '_with_unit'):
        if name.endswith(suf):
            base = name[:-len(suf)]
            break
    else:
        return None, None
    if base in ('x', 'y', 'z', 'position'):
        return base, 'length'
    if base in ('velocity', 'v') or base.endswith('_dot'):
        return base, 'velocity'
    if base in ('wx', 'wy', 'wz', 'angular_velocity'):
        return base, 'angrate'
    if base in ('yaw', 'pitch', 'roll', 'heading', 'gamma', 'theta'):
        return base, 'angle'
    if base == 'acceleration':
        return base, 'acceleration'
    return base, None


def p18(c):
    for e in ENTITIES:
        for f, kind in e.uslots.items():
            for unit in KIND[kind]:
                c.world(True)

                def conv(e=e, f=f, kind=kind, unit=unit):
                    v = tm.sym('val', 'pos') if f == 'v' else tm.sym('val')
                    k = parse_unit(unit)[1] / own(e, kind)[1]
                    vals = s0(e)
                    i = e.fields.index(f)
                    kw = {'name': 'ego', **{g: VNum(T(t), 'float') for g, t in zip(e.fields, vals)}}
                    kw[f] = qty(v, unit)
                    o = c.returns(c.w.call(c.api(e.path), **kw), f'{e.key}({f}=value {unit})')
                    got = view(c, o)
                    vals[i] = v * k
                    ref = construct(c, e, init=vals)
                    c.eq(vcells(c, o, 'state', e.n)[i], v * k, f'{e.key}: {f} given in {unit}')
                    same(c, view(c, ref), got, f'{e.key}: {f} given in {unit} against the plain number')
                c.ob(f'{e.key}/in/{f}/{unit}', 'a quantity initialises like the equivalent plain number', conv, 'build_unit_conversion_validator_fn')
            for unit in WRONG[kind]:
                c.world(True)

                def wrong(e=e, f=f, unit=unit):
                    v = tm.sym('val', 'pos') if f == 'v' else tm.sym('val')
                    out = c.w.call(c.api(e.path), name='ego', **{f: qty(v, unit)})
                    c.raises(out, ['ValidationError', 'ValueError'], f'{e.key}({f}=value {unit})')
                c.ob(f'{e.key}/wrong/{f}/{unit}', 'a quantity of the wrong dimension is refused', wrong, 'build_unit_conversion_validator_fn')
        if e.uslots:
            c.world(True)

            def every(e=e):
                # all unit-bearing values at once, each in another unit
                vals, kw = s0(e), {'name': 'ego'}
                for j, (f, t) in enumerate(zip(e.fields, list(vals))):
                    if f in e.uslots:
                        us = KIND[e.uslots[f]]
                        unit = us[1 + j % (len(us) - 1)]
                        kw[f] = qty(t, unit)
                        vals[j] = t * parse_unit(unit)[1] / own(e, e.uslots[f])[1]
                    else:
                        kw[f] = VNum(T(t), 'float')
                o = c.returns(c.w.call(c.api(e.path), **kw), f'{e.key}(quantities)')
                for i, (x, y) in enumerate(zip(vcells(c, o, 'state', e.n), vals)):
                    c.eq(x, y, f'{e.key}: {e.slots[i]} given as a quantity among quantities')
                for f in e.uslots:
                    g = c.w.attr(vget(c, o, 'config'), f)
            c.ob(f'{e.key}/in/all', 'quantities in mixed units initialise each component', every, 'build_unit_conversion_validator_fn')
        for when in ('new', 'moved'):
            c.world(True)

            def outs(e=e, when=when):
                o = construct(c, e)
                if when == 'moved':
                    c.w.it.setattr(o, 'state', c.w.arr(newstate(e, 'n')))
                seen = 0
                for name in props(c, o):
                    base, kind = kind_of(e, name)
                    if base is None:
                        continue
                    plain = peek(c, o, base)
                    if plain is None:
                        continue
                    want = c.w.cells(plain)
                    if want is None:
                        continue
                    q = c.w.it.res(vget(c, o, name))
                    c.sure(isinstance(q, VNative) and q.kind == 'quantity', f'{e.key}.{name} is not a quantity')
                    got = cells(c, q.d['m'], name)
                    c.sure(len(got) == len(want), f'{e.key}.{name} has {len(got)} elements, {base} has {len(want)}')
                    for i, (x, y) in enumerate(zip(got, want)):
                        c.eq(x, y, f'{e.key}.{name}[{i}] against {base}')
                    if kind is None:
                        raise Undecided(f'dimension of {name} is not specified')
                    u = q.d['u'].d['u']
                    c.sure(u[0] == own(e, kind)[0], f'{e.key}.{name} has the dimensions {dict(u[0])}')
                    c.eq(u[1], own(e, kind)[1], f'{e.key}.{name}: size of the unit in SI')
                    seen += 1
                if e.pos is not None:
                    c.sure(seen >= 5, f'{e.key}: only {seen} unit-bearing accessors left')
            c.ob(f'{e.key}/out/{when}', 'unit-bearing accessors carry the plain value in the entity\'s unit', outs, 'BaseEntity.*_with_units')
        for g in ENTITIES:
            if e.pos is None or g.pos is None or (g.key < e.key and not c.thorough):
                continue
            c.world(True)

            def combine(e=e, g=g):
                it = c.w.it
                a, b = construct(c, e, 'a', name='a'), construct(c, g, 'b', name='b')
                for name in ('x_with_units', 'velocity_with_units', 'v_with_units', 'angular_velocity_with_units', 'wz_with_unit'):
                    p, q = peek(c, a, name), peek(c, b, name)
                    base, kind = kind_of(e, name)
                    if p is None or q is None or len(cells(c, it.res(p).d['m'])) != len(cells(c, it.res(q).d['m'])):
                        continue
                    d = it.res(c.returns(c.w.do(lambda: it.binop('Sub', p, q)), f'{e.key}.{name} - {g.key}.{name}'))
                    c.sure(isinstance(d, VNative) and d.kind == 'quantity', f'{e.key}.{name} - {g.key}.{name} is not a quantity')
                    k = own(g, kind)[1] / own(e, kind)[1]
                    sc = d.d['u'].d['u'][1] / own(e, kind)[1]
                    for i, (x, y, z) in enumerate(zip(cells(c, d.d['m']), cells(c, it.res(p).d['m']),
                                                      cells(c, it.res(q).d['m']))):
                        c.eq(x * sc, y - z * k, f'{e.key}.{name} - {g.key}.{name}: component {i}')
                # and with quantities of the application registry, which are what entities are configured with
                p = it.res(vget(c, a, 'x_with_units'))
                m = qty(tm.sym('len'), 'meter')
                d = it.res(c.returns(c.w.do(lambda: it.binop('Add', p, m)), f'{e.key}.x_with_units + a length'))
                c.eq(cells(c, d.d['m'])[0] * d.d['u'].d['u'][1], cells(c, p.d['m'])[0] * own(e, 'length')[1] + tm.sym('len'), f'{e.key}.x_with_units + a length')
                # a quantity one entity reports configures another
                if 'x' in g.uslots:
                    h = c.returns(c.w.call(c.api(g.path), name='h', x=p), f'{g.key}(x={e.key}.x_with_units)')
                    c.eq(cells(c, vget(c, h, 'x'))[0], cells(c, p.d['m'])[0] * own(e, 'length')[1] / own(g, 'length')[1], f'{g.key}(x={e.key}.x_with_units)')
            c.ob(f'{e.key}/combine/{g.key}', 'quantities of different entities combine with one another', combine, 'BaseEntity.*_with_units')
        c.world(True)

        def units(e=e):
            bu = vget(c, construct(c, e), 'base_units')
            for n, kind in (('length', 'length'), ('time', 'time'), ('angle', 'angle'), ('velocity', 'velocity'), ('angular_velocity', 'angrate'),
                            ('acceleration', 'acceleration'), ('angular_acceleration', 'angacc')):
                u = c.w.it.res(vget(c, bu, n))
                c.sure(isinstance(u, VNative) and u.kind == 'unit', f'{e.key}: base unit of {n}')
                c.sure(u.d['u'][0] == own(e, kind)[0], f'{e.key}: base unit of {n} has the dimensions {dict(u.d["u"][0])}')
                c.eq(u.d['u'][1], own(e, kind)[1], f'{e.key}: size of the base unit of {n}')
        c.ob(f'{e.key}/base-units', 'the entity\'s unit system', units, 'BaseUnits')
    for e in ENTITIES:
        if e.pos is None:
            continue
        c.world(True)

        def derived(e=e):
            # a subclass that keeps the model and declares other units: its accessors carry the units it declares
            it = c.w.it
            b = c.returns(c.w.call(c.api('base_models.BaseUnits'), 'kilometer', 'hour', 'degree'), 'BaseUnits')
            cls = VClass('Tuned', [c.api(e.path)], nmethods={'base_units': b})
            o = c.returns(c.w.call(cls, name='ego', **{f: VNum(t, 'float') for f, t in zip(e.fields, s0(e))}), f'subclass of {e.key}')
            if it.res(vget(c, o, 'base_units')) is not it.res(b):
                raise Undecided('class attributes of the subclass are not visible')
            l, t, a = parse_unit('kilometer'), parse_unit('hour'), parse_unit('degree')
            size = {'length': l, 'velocity': u_mul(l, t, -1), 'angle': a, 'angrate': u_mul(a, t, -1), 'acceleration': u_mul(u_mul(l, t, -1), t, -1)}
            for name in props(c, o):
                base, kind = kind_of(e, name)
                if base is None or kind not in size or peek(c, o, base) is None:
                    continue
                q = it.res(vget(c, o, name))
                u = q.d['u'].d['u']
                c.sure(u[0] == size[kind][0], f'{e.key} in other units: {name} has the dimensions {dict(u[0])}')
                c.eq(u[1], size[kind][1], f'{e.key} in other units: size of the unit of {name} in SI')
                for i, (x, y) in enumerate(zip(cells(c, q.d['m'], name), c.w.cells(peek(c, o, base)))):
                    c.eq(x, y, f'{e.key} in other units: {name}[{i}] against {base}')
        c.ob(f'{e.key}/out/other-units', "unit-bearing accessors carry the unit system the entity's class declares", derived, 'BaseEntity.*_with_units')
    for L, S, A in (('kilometer', 'hour', 'degree'), ('feet', 'minutes', 'radians')):
        c.world(True)

        def system(L=L, S=S, A=A):
            b = c.returns(c.w.call(c.api('base_models.BaseUnits'), L, S, A), 'BaseUnits')
            l, t, a = parse_unit(L), parse_unit(S), parse_unit(A)
            for n, u in (('length', l), ('time', t), ('angle', a), ('velocity', u_mul(l, t, -1)), ('angular_velocity', u_mul(a, t, -1)),
                         ('acceleration', u_mul(u_mul(l, t, -1), t, -1)), ('angular_acceleration', u_mul(u_mul(a, t, -1), t, -1))):
                g = c.w.it.res(vget(c, b, n)).d['u']
                c.sure(g[0] == u[0], f'BaseUnits({L}, {S}, {A}).{n} has the dimensions {dict(g[0])}')
                c.eq(g[1], u[1], f'BaseUnits({L}, {S}, {A}).{n}: size in SI')
        c.ob(f'BaseUnits/{L}-{S}-{A}', 'derived units follow from the three base units', system, 'BaseUnits')
    for tgt in ('meters', 'ft/s', 'degrees', 'hour'):
        c.world(True)

        def validator(tgt=tgt):
            fn = c.returns(c.w.call(c.api('base_models.build_unit_conversion_validator_fn'), tgt), 'build_unit_conversion_validator_fn')
            v = tm.sym('val')
            x = c.w.term(c.returns(c.w.call(fn, VNum(v, 'float')), 'plain number'))
            c.eq(x, v, f'plain number with unit {tgt}')
            for src in ('kilometer', 'knot', 'turn', 'second', 'kilogram'):
                u, w_ = parse_unit(src), parse_unit(tgt)
                out = c.w.call(fn, qty(v, src))
                if u[0] == w_[0]:
                    c.eq(c.w.term(c.returns(out, f'{src} to {tgt}')), v * u[1] / w_[1], f'{src} to {tgt}')
                else:
                    c.raises(out, ['ValueError'], f'{src} to {tgt}')
        c.ob(f'validator/{tgt}', 'conversion of quantities and plain numbers', validator, 'build_unit_conversion_validator_fn')


# ---------------------------------------------------------------------- P19
REFUSED = ['Exception']


def unusable(c):
    w = c.w
    return {'text': 'abc', 'None': None, 'list': w.list([VNum(tm.sym('b0'), 'float'), VNum(tm.sym('b1'), 'float')]),
            'tuple': VTuple([VNum(T(1), 'float'), VNum(T(2), 'float')]), 'dict': w.dict(value=VNum(T(1), 'float')), 'array': w.arr(syms(2, 'b')),
            'empty text': ''}


def p19(c):
    for e in ENTITIES:
        c.world(True)

        def unknown(e=e):
            for bad in ('altitude', 'vx', 'xx', 'Name', 'zz_unknown', 'quaternion'):
                out = c.w.call(c.api(e.path), **{'name': 'ego', bad: VNum(tm.sym('val'), 'float')})
                c.raises(out, ['ValidationError', 'TypeError'], f'{e.key} with the unknown field {bad}')
            # fields of other entities (the integrators of different dimension share their axes)
            shared = {'x', 'y', 'z', 'xdot', 'ydot', 'zdot'} if 'ntegrator' in e.path else {'x', 'y', 'z'}
            for bad in sorted({f for g in ENTITIES for f in g.fields} - set(e.fields) - shared):
                out = c.w.call(c.api(e.path), **{'name': 'ego', bad: VNum(tm.sym('val'), 'float')})
                c.raises(out, ['ValidationError', 'TypeError'], f'{e.key} with the unknown field {bad}')
            # also next to a complete set of valid values
            kw = {f: VNum(T(t), 'float') for f, t in zip(e.fields, s0(e))}
            out = c.w.call(c.api(e.path), name='ego', unknown_field=VNum(T(0), 'float'), **kw)
            c.raises(out, ['ValidationError', 'TypeError'], f'{e.key} with an unknown field among valid ones')
        c.ob(f'{e.key}/unknown-field', 'an unknown field is refused', unknown, e.path)
        c.world(True)

        def nameless(e=e):
            kw = {f: VNum(T(t), 'float') for f, t in zip(e.fields, s0(e))}
            c.raises(c.w.call(c.api(e.path)), ['ValidationError', 'TypeError'], f'{e.key} without a name')
            c.raises(c.w.call(c.api(e.path), **kw), ['ValidationError', 'TypeError'], f'{e.key} without a name but with all values')
            c.raises(c.w.call(c.api(e.path), name=None), ['ValidationError', 'TypeError'], f'{e.key} named None')
            c.raises(c.w.call(c.api(e.path), name=VNum(T(3), 'int')), ['ValidationError', 'TypeError'], f'{e.key} named by a number')
        c.ob(f'{e.key}/name', 'an entity without a name is refused', nameless, e.path)
        for f in e.fields:
            for kind in ('text', 'None', 'list', 'tuple', 'dict', 'array', 'empty text'):
                c.world(True)

                def bad(e=e, f=f, kind=kind):
                    out = c.w.call(c.api(e.path), name='ego', **{f: unusable(c)[kind]})
                    c.raises(out, ['ValidationError', 'TypeError'], f'{e.key}({f}=<{kind}>)')
                c.ob(f'{e.key}/{f}/{kind}', 'a non-numeric initial value is refused', bad, e.path)
            c.world(True)

            def dims(e=e, f=f):
                # a quantity that fits none of the entity's dimensions
                for unit in ('kilogram', 'meter**3', 'newton'):
                    if f not in e.uslots:
                        continue
                    v = tm.sym('val', 'pos') if f == 'v' else tm.sym('val')
                    c.raises(c.w.call(c.api(e.path), name='ego', **{f: qty(v, unit)}), ['ValidationError', 'TypeError'], f'{e.key}({f}=value {unit})')
            if f in e.uslots:
                c.ob(f'{e.key}/{f}/dimension', 'a value of the wrong dimension is refused', dims, e.path)
        if e.samples:
            for bad in ('2.5', '3.0', 'text', 'None'):
                c.world(True)

                def samples(e=e, bad=bad):
                    v = {'2.5': VNum(T(F(5, 2)), 'float'), '3.0': VNum(T(3), 'float'), 'text': '3', 'None': None}[bad]
                    c.raises(c.w.call(c.api(e.path), name='ego', trajectory_samples=v), REFUSED, f'{e.key}(trajectory_samples={bad})')
                c.ob(f'{e.key}/samples/{bad}', 'a non-integer trajectory sample count is refused', samples, e.path)
            c.world(True)

            def okay(e=e):
                for v in (0, 1, 7):
                    c.returns(c.w.call(c.api(e.path), name='ego', trajectory_samples=v), f'{e.key}(trajectory_samples={v})')
            c.ob(f'{e.key}/samples/valid', 'integer sample counts are accepted', okay, e.path)
    for path, good, arg in (('integrators.IntegratorDynamics', ['1d', '2d', '3d'], 'mode'),
                            ('integrators.generate_dynamics_matrices', ['1d', '2d', '3d'], 'mode'),
                            ('cwh.point_model.generate_cwh_matrices', ['2d', '3d'], 'mode')):
        c.world(True)

        def modes(path=path, good=good):
            k = {} if path.endswith('Dynamics') else {'m': VNum(tm.sym('m', 'pos'), 'float')}
            if path.endswith('cwh_matrices'):
                k['n'] = VNum(tm.sym('n', 'pos'), 'float')
            if path.endswith('dynamics_matrices'):
                k['damping'] = VNum(tm.sym('damping', 'nonneg'), 'float')
            for m in good:
                c.returns(c.w.call(c.api(path), mode=m, **k), f'{path}(mode={m})')
            for m in ('4d', '0d', '2D', '', '3', 'd', None, VNum(T(2), 'int')) + (('1d',) if '1d' not in good else ()):
                c.raises(c.w.call(c.api(path), mode=m, **k), REFUSED, f'{path}(mode={m})')
        c.ob(f'{path}/mode', 'a model dimension that does not exist is refused', modes, path)
    for jx in (False, True):
        for na, nb, why in (((2, 3), (2, 1), 'A not square'), ((3, 2), (2, 1), 'A not square'), ((2, 2), (3, 1), 'rows of B'), ((2, 2), (1, 2), 'rows of B'),
                            ((4,), (2, 1), 'A one-dimensional'), ((2, 2), (2,), 'B one-dimensional'), ((1, 2, 2), (2, 1), 'A three-dimensional'),
                            ((2, 2), (2, 1, 1), 'B three-dimensional')):
            c.world(True)

            def shapes(jx=jx, na=na, nb=nb, why=why):
                w = c.w

                def arr(shape, pre):
                    n = 1
                    for x in shape:
                        n *= x
                    return w.arr(syms(n, pre), shape)
                k = {'use_jax': True} if jx else {}
                c.raises(w.call(c.api('base_models.BaseLinearODESolverDynamics'), A=arr(na, 'A'), B=arr(nb, 'B'), **k), REFUSED, f'linear system with {why}: {na}, {nb}')
                c.returns(w.call(c.api('base_models.BaseLinearODESolverDynamics'), A=arr((2, 2), 'A'), B=arr((2, 3), 'B'), **k), 'linear system of consistent shape')
            c.ob(f'linear{"/jax" if jx else ""}/{na}x{nb}', 'matrices of inconsistent shape are refused', shapes, 'BaseLinearODESolverDynamics')


# ---------------------------------------------------------------------- P20
def behaviour(c, e, method, kind):
    """everything observable of one construction and one step"""
    out = {}
    o = construct(c, e, **({'integration_method': method}))
    for n, x in view(c, o).items():
        out['new.' + n] = x
    ok = TRUE
    act = action(c, kind, syms(len(e.controls), 'u'), e.controls)
    r = step(c, o, DT(), act)
    ok = ivp_ok(c)
    c.returns(r, f'{e.key}: step with a {kind} action ({method})', assume=ok)
    for n, x in view(c, o).items():
        out[f'{kind}.{n}'] = x
    warned = FALSE
    for ev in r.events:
        if ev['kind'] == 'warn':
            warned = c_or(warned, ev['pc'])
    out[f'{kind}.warned'] = warned
    return out, ok


def p20(c):
    c.world(False)
    w0 = c.w
    for m in w0.modlist:
        def mod(m=m):
            why = [y for x, y in w0.problems if x == m or m.startswith(x + '.')]
            if why and why[0].startswith('unsupported'):
                raise Undecided(why[0])
            c.sure(not why, f'importing {m} without JAX {why[0] if why else ""}', m)
        c.ob(f'import/{m}', 'the module imports without JAX', mod, m)
    for e in ENTITIES:
        for method, kind in [(m, k) for m in ('RK45', 'Euler') for k in (['dict', 'list', 'array', 'none'] if e.controls else ['list', 'none'])]:
            c.world(True)
            ref = []

            def with_jax(e=e, method=method, kind=kind):
                ref.append(behaviour(c, e, method, kind))
            c.ob(f'{e.key}/{method}/{kind}/reference', 'behaviour with JAX present', with_jax, e.path)
            c.world(False, keep=True)

            def without(e=e, method=method, kind=kind):
                if not ref:
                    raise Undecided('no reference behaviour')
                a, ok1 = ref[0]
                b, ok2 = behaviour(c, e, method, kind)
                c.sure(set(a) == set(b), f'{e.key}: {sorted(set(a) ^ set(b))[:3]} only available in one configuration')
                for n in sorted(a):
                    if isinstance(a[n], list):
                        for i, (x, y) in enumerate(zip(a[n], b[n])):
                            c.eq(y, x, f'{e.key} ({method}) without JAX: {n}[{i}]', assume=c_and(ok1, ok2))
                    else:
                        c.iff(b[n], a[n], f'{e.key} ({method}) without JAX: {n}')
            c.ob(f'{e.key}/{method}/{kind}/nojax', 'behaviour without JAX equals behaviour with JAX', without, e.path)
        c.world(False)

        def args(e=e):
            for bad in ('text', 3):
                o = construct(c, e)
                out = step(c, o, DT(), bad)
                c.raises(out, ['ValueError'], f'{e.key}: step({bad!r}) without JAX')
        c.ob(f'{e.key}/bad-action', 'unsupported action types are refused alike', args, 'BaseEntity.step')
        if e.jax:
            for kw in ({}, {'integration_method': 'RK45_JAX'}, {'integration_method': 'Euler'}):
                for path in (e.path, e.dyn):
                    c.world(False)

                    def asked(e=e, kw=kw, path=path):
                        k = dict(kw)
                        if path == e.path:
                            k['name'] = 'ego'
                        c.raises(c.w.call(c.api(path), use_jax=True, **k), ['ImportError'], f'{path}(use_jax=True) without JAX')
                    c.ob(f'{path}/use_jax/{kw.get("integration_method", "default")}', 'asking for JAX raises ImportError at construction', asked, 'BaseDynamics.__init__')
    c.world(False)

    def lin():
        w = c.w
        c.raises(w.call(c.api('base_models.BaseLinearODESolverDynamics'), A=w.arr(syms(4, 'A'), (2, 2)), B=w.arr(syms(2, 'B'), (2, 1)), use_jax=True),
                 ['ImportError'], 'BaseLinearODESolverDynamics(use_jax=True) without JAX')
    c.ob('linear/use_jax', 'asking for JAX raises ImportError at construction', lin, 'BaseDynamics.__init__')


# ---------------------------------------------------------------------- P21
def backend_subject(c, key, jx, method):
    if key == 'linear':
        return linear(c, 2, 1, 'vector', 'vector', {1: T(0)}, jx, method).d, 2, 1
    e = BY[key]
    k = {'integration_method': method}
    if jx:
        k['use_jax'] = True
    return vget(c, construct(c, e, **k), 'dynamics'), e.n, len(e.controls)


def clean(c, lg, what):
    bad = [ev for ev in c.w.it.log[lg:] if ev['kind'] == 'concretize']
    c.sure(not bad, f'{what}: {bad[0].get("what") if bad else ""}', bad[0]['where'] if bad else None)


def jaxed(c, v, what):
    v = c.w.it.res(v)
    c.sure(isinstance(v, VArr) and v.jx is not None, f'{what} is not a JAX array (computed outside the JAX namespace)')


def p21(c):
    for key in [e.key for e in ENTITIES if e.jax] + ['linear']:
        for kind in ('jax', 'traced'):
            for entry in ('compute_state_dot', 'compute_state_dot_jax', 'state_transition_system', 'state_transition_input'):
                c.world(True)

                def der(key=key, kind=kind, entry=entry):
                    from .history import Skip_
                    res = []
                    for jx in (True, False):
                        d, n, m = backend_subject(c, key, jx, 'RK45_JAX' if jx else 'RK45')
                        if peek(c, d, entry) is None:
                            raise Skip_()
                        lg = len(c.w.it.log)
                        tag = kind if jx else None
                        S = c.w.arr(syms(n, 's'), dt='float32' if jx else 'float64', jx=tag)
                        U = c.w.arr(syms(m, 'u'), (m,), jx=tag)
                        t = VNum(tm.sym('t'), 'float', None if tag != 'traced' else 'float32', 'traced' if tag == 'traced' else None)
                        a = {'compute_state_dot': [t, S, U], 'compute_state_dot_jax': [S, t, U]}.get(entry, [S])
                        out = c.w.method(d, entry, *a)
                        if jx:
                            clean(c, lg, f'{key}.{entry} on {kind} values')
                        v = c.returns(out, f'{key}.{entry} on {kind if jx else "numpy"} values')
                        if jx and entry != 'state_transition_input':
                            jaxed(c, v, f'{key}.{entry} on {kind} values')
                        res.append(cells(c, v))
                    c.sure(len(res[0]) == len(res[1]), f'{key}.{entry}: {len(res[0])} elements with JAX, {len(res[1])} without')
                    for i, (x, y) in enumerate(zip(*res)):
                        c.eq(x, y, f'{key}.{entry}[{i}] with JAX against NumPy')
                from .history import try_ob
                try_ob(c, f'{key}/{entry}/{kind}', 'same derivative as the NumPy backend, traceable', der)
            for method in ('Euler', 'RK45_JAX'):
                c.world(True)

                def stp(key=key, kind=kind, method=method):
                    d, n, m = backend_subject(c, key, True, method)
                    lg = len(c.w.it.log)
                    tr = kind == 'traced'
                    dt = VNum(DT(), 'float', 'float32' if tr else None, 'traced' if tr else None)
                    out = c.w.method(d, 'step', dt, c.w.arr(syms(n, 's'), dt='float32', jx=kind), c.w.arr(syms(m, 'u'), (m,), jx=kind))
                    clean(c, lg, f'{key}: {method} step on {kind} values')
                    v = c.w.it.res(c.returns(out, f'{key}: {method} step on {kind} values'))
                    got = []
                    for x, what in zip(c.w.it.iterate(v), ('next state', 'state derivative')):
                        jaxed(c, x, f'{key}: {what} of a {method} step on {kind} values')
                        got.append(cells(c, x))
                    if method == 'Euler':
                        d2, _, _ = backend_subject(c, key, False, 'Euler')
                        r = c.returns(c.w.method(d2, 'step', VNum(DT(), 'float'), c.w.arr(syms(n, 's')), c.w.arr(syms(m, 'u'), (m,))), 'NumPy step')
                        for x, y, what in zip(got, c.w.it.iterate(c.w.it.res(r)), ('next state', 'state derivative')):
                            for i, (p, q) in enumerate(zip(x, cells(c, y))):
                                c.eq(p, q, f'{key}: {what}[{i}] of an Euler step with JAX against NumPy')
                    else:
                        evs = [ev for ev in c.w.it.log[lg:] if ev['kind'] == 'odeint']
                        c.sure(len(evs) == 1, f'{key}: {len(evs)} JAX integrations in one step')
                        d2, _, _ = backend_subject(c, key, False, 'RK45')
                        lg2 = len(c.w.it.log)
                        r = c.w.method(d2, 'step', VNum(DT(), 'float'), c.w.arr(syms(n, 's')), c.w.arr(syms(m, 'u'), (m,)))
                        ref = [ev for ev in c.w.it.log[lg2:] if ev['kind'] == 'solve_ivp']
                        c.sure(len(ref) == 1, f'{key}: {len(ref)} integrations in one NumPy step')
                        for i, (p, q) in enumerate(zip(evs[0]['der'], ref[0]['der'])):
                            c.eq(p, q, f'{key}: integrand[{i}] handed to the JAX solver against the NumPy one')
                        for i, (p, q) in enumerate(zip(evs[0]['y0'], ref[0]['y0'])):
                            c.eq(p, q, f'{key}: start state[{i}] handed to the JAX solver against the NumPy one')
                        rv = c.returns(r, 'NumPy step', assume=ivp_ok(c))
                        for x, y, what in zip(got, c.w.it.iterate(c.w.it.res(rv)), ('next state', 'state derivative')):
                            for i, (p, q) in enumerate(zip(x, cells(c, y))):
                                c.eq(p, q, f'{key}: {what}[{i}] of a JAX-integrated step against the NumPy one', assume=ivp_ok(c))
                c.ob(f'{key}/step/{method}/{kind}', 'same step formula as the NumPy backend, traceable', stp, 'BaseODESolverDynamics._step')
    # an entity stepping on the JAX backend
    for e in [x for x in ENTITIES if x.jax]:
        for method in ('Euler', 'RK45_JAX'):
            for kind in kinds_of(e):
                c.world(True)

                def ent(e=e, method=method, kind=kind):
                    res = []
                    for jx in (True, False):
                        k = {'use_jax': True, 'integration_method': method} if jx else {'integration_method': 'Euler' if method == 'Euler' else 'RK45'}
                        o = construct(c, e, **k)
                        for r in range(2):
                            out = step(c, o, DT(), action(c, kind if jx or kind != 'jax' else 'array', syms(len(e.controls), f'u{r}'), e.controls))
                            c.returns(out, f'{e.key}: {method} step with a {kind} action', assume=ivp_ok(c))
                            res.append(vcells(c, o, 'state', e.n) + vcells(c, o, 'state_dot', e.n))
                            c.w.it.setattr(o, 'state', c.w.arr(newstate(e, 'h')))
                    for a, b in ((res[0], res[2]), (res[1], res[3])):
                        for i, (x, y) in enumerate(zip(a, b)):
                            c.eq(x, y, f'{e.key}: {"state" if i < e.n else "state_dot"}[{i % e.n}] with JAX against NumPy', assume=ivp_ok(c))
                c.ob(f'{e.key}/entity/{method}/{kind}', 'an entity on the JAX backend moves as on the NumPy backend', ent, 'BaseEntity.step')


def kinds_of(e):
    return ['none', 'dict', 'list', 'array', 'jax'] if e.controls else ['list', 'array', 'jax']
