"""P01 control saturation, P02 action decoding, P03 actuator channels."""
from __future__ import annotations

from itertools import permutations

from .common import *


class Probe:
    """stand-in for the dynamics object of an entity: records what one step hands to the dynamics"""

    def __init__(self, c, e, o, tag='n'):
        it = c.w.it
        self.calls = []
        self.next = [tm.sym(f'{tag}_next{i}') for i in range(e.n)]
        self.dot = [tm.sym(f'{tag}_dot{i}') for i in range(e.n)]

        def stepfn(i, a, k):
            names = ['step_size', 'state', 'control']
            d = dict(zip(names, a))
            d.update(k)
            self.calls.append((i.st.pc, [c.w.cells(i.res(d[n])) for n in names], i.res(d['control'])))
            return VTuple([i.mkarr(self.next, (e.n,), 'float64'), i.mkarr(self.dot, (e.n,), 'float64')])
        # the entity's own model keeps its attributes; only its step is watched
        self.ref = it.getattr(o, 'dynamics')
        it.setattr(self.ref, 'step', VBuiltin('step', stepfn))

    def one(self, c, what):
        """the control of the single recorded dynamics step"""
        c.sure(len(self.calls) > 0, f'{what}: the dynamics are never stepped')
        pc = FALSE
        for p, _, _ in self.calls:
            pc = c_or(pc, p)
        c.true(pc, f'{what}: the dynamics are stepped on every path', assume=c.w.it.st.pc)
        if len(self.calls) > 1:
            for i, (p, _, _) in enumerate(self.calls):
                for q, _, _ in self.calls[i + 1:]:
                    if c_and(p, q) is not FALSE:
                        w, n = __import__('sa.witness', fromlist=['x']).cond_true(c_and(p, q))
                        c.sure(w is None, f'{what}: the dynamics are stepped more than once')
        ctl = self.calls[-1][1][2]
        if ctl is None:
            raise Undecided('control is not a numeric vector')
        for p, (_, _, x), _ in reversed(self.calls[:-1]):
            if x is None or len(x) != len(ctl):
                raise Undecided('control shapes differ between paths')
            ctl = [tm.ite(p, a, b) for a, b in zip(x, ctl)]
        return ctl


def warned(out):
    c = FALSE
    for e in out.events:
        if e['kind'] == 'warn':
            c = c_or(c, e['pc'])
    return c


def outside(cmd, lo, hi):
    c = FALSE
    for u, a, b in zip(cmd, lo, hi):
        c = c_or(c, tm.lt0(u - a), tm.lt0(b - u))
    return c


def kinds(e, jx):
    ks = ['list', 'array']
    if e.controls:
        ks = ['none', 'dict'] + ks
    if jx:
        ks.append('jax')
    return ks


def run_step(c, e, o, kind, cmd, what):
    pr = Probe(c, e, o)
    dt = DT()
    before = vcells(c, o, 'state')
    act = action(c, kind, cmd, e.controls)
    out = step(c, o, dt, act)
    c.returns(out, what)
    ctl = pr.one(c, what)
    return pr, out, ctl, before, dt


def p01(c):
    for jx in (True, False):
        for e in ENTITIES:
            for kind in kinds(e, jx):
                if not jx and kind not in ('list', 'dict'):
                    continue
                for mode in ('default', 'vector', 'scalar'):
                    if mode == 'scalar' and (kind != 'array' or not jx):
                        continue
                    if mode == 'vector' and not jx:
                        continue
                    c.world(jx)

                    def ob(e=e, kind=kind, mode=mode):
                        o = construct(c, e)
                        n = len(e.controls)
                        cmd = [tm.sym(f'u{i}') for i in range(n)]
                        want = cmd if kind != 'none' else [T(0)] * n
                        if mode == 'default':
                            lo, hi = [T(x) for x in e.cmin], [T(x) for x in e.cmax]
                        else:
                            m = n if mode == 'vector' else 1
                            lo = [tm.sym(f'lo{i}') for i in range(m)]
                            hi = [lo[i] + tm.sym(f'w{i}', 'nonneg') for i in range(m)]
                            if mode == 'vector':
                                c.w.it.setattr(o, 'control_min', c.w.arr(lo, (n,)))
                                c.w.it.setattr(o, 'control_max', c.w.arr(hi, (n,)))
                            else:
                                c.w.it.setattr(o, 'control_min', VNum(lo[0], 'float'))
                                c.w.it.setattr(o, 'control_max', VNum(hi[0], 'float'))
                                lo, hi = lo * n, hi * n
                        pr, out, ctl, before, dt = run_step(c, e, o, kind, cmd, f'{e.key}.step({kind} action)')
                        c.sure(len(ctl) == n, f'control vector has {len(ctl)} elements, {n} required')
                        for i in range(n):
                            c.eq(ctl[i], clip(want[i], lo[i], hi[i]), f'{e.key} applied control [{i}] for a {kind} action')
                        c.iff(warned(out), outside(want, lo, hi), f'{e.key} warning for a {kind} action')
                    c.ob(f'{e.key}/{kind}/{mode}/{"jax" if jx else "nojax"}', 'control handed to the dynamics == clip(command, min, max); warning <=> some element outside', ob,
                         'BaseEntity.step')
    # a command is judged on its own, whatever was commanded before, to this or to another entity
    for e in ENTITIES:
        for kind in ('list', 'dict', 'none') if e.controls else ():
            c.world(True)

            def later(e=e, kind=kind):
                o, p = construct(c, e), construct(c, e, 'p', name='peer')
                n = len(e.controls)
                lo = [tm.sym(f'lo{i}') for i in range(n)]
                hi = [lo[i] + tm.sym(f'w{i}', 'nonneg') for i in range(n)]
                for x in (o, p):
                    c.w.it.setattr(x, 'control_min', c.w.arr(lo, (n,)))
                    c.w.it.setattr(x, 'control_max', c.w.arr(hi, (n,)))
                Probe(c, e, p, 'm')
                Probe(c, e, o, 'l')
                for x in (p, o):
                    c.returns(step(c, x, DT(), action(c, 'list', [hi[i] + T(1) for i in range(n)])), f'{e.key}: an earlier step beyond the bounds')
                    c.returns(step(c, x, DT(), action(c, 'dict', [tm.sym('early')] * n, e.controls)), f'{e.key}: an earlier named step')
                    c.returns(step(c, x, DT(), None), f'{e.key}: an earlier step without a command')
                cmd = [tm.sym(f'u{i}') for i in range(n)]
                want = cmd if kind != 'none' else [T(0)] * n
                pr, out, ctl, before, dt = run_step(c, e, o, kind, cmd, f'{e.key}.step({kind} action) after others')
                for i in range(n):
                    c.eq(ctl[i], clip(want[i], lo[i], hi[i]), f'{e.key} applied control [{i}] for a {kind} action after other steps')
                c.iff(warned(out), outside(want, lo, hi), f'{e.key} warning for a {kind} action after other steps')
            c.ob(f'{e.key}/{kind}/later', 'saturation and warning do not depend on earlier commands', later, 'BaseEntity.step')
        for kind in ('list', 'array', 'dict') if e.controls else ():
            c.world(True)

            def again(e=e, kind=kind):
                # the caller keeps one action object and rewrites it between steps
                o = construct(c, e)
                n = len(e.controls)
                it = c.w.it
                wide(c, o, n)
                act = action(c, kind, [tm.sym(f'first{i}') for i in range(n)], e.controls)
                Probe(c, e, o, 'l')
                c.returns(step(c, o, DT(), act), f'{e.key}: a first step')
                cmd = [tm.sym(f'u{i}') for i in range(n)]
                for i in range(n):
                    it.setitem(act, e.controls[i] if kind == 'dict' else VNum(T(i), 'int'), VNum(cmd[i], 'float'))
                pr = Probe(c, e, o, 'm')
                what = f'{e.key}.step(a {kind} rewritten since the last step)'
                out = step(c, o, DT(), act)
                c.returns(out, what)
                ctl = pr.one(c, what)
                c.sure(len(ctl) == n, f'{what}: control has {len(ctl)} elements')
                lo, hi = [tm.sym(f'lo{i}') for i in range(n)], [tm.sym(f'lo{i}') + tm.sym(f'w{i}', 'nonneg') for i in range(n)]
                for i in range(n):
                    c.eq(ctl[i], clip(cmd[i], lo[i], hi[i]), f'{what}: applied control [{i}]')
                c.iff(warned(out), outside(cmd, lo, hi), f'{what}: warning')
                # and the caller's object still holds what the caller wrote
                for i in range(n):
                    c.eq(c.w.cells(it.getitem(act, e.controls[i] if kind == 'dict' else VNum(T(i), 'int')))[0], cmd[i], f'{what}: the action object itself')
            c.ob(f'{e.key}/{kind}/rewritten', 'each step reads the action it is given as it is at that time', again, 'BaseEntity.step')


def p02(c):
    for e in ENTITIES:
        n = len(e.controls)
        # named subsets in both orders
        subs = []
        for mask in range(1 << n):
            names = [k for i, k in enumerate(e.controls) if mask >> i & 1]
            subs.append(names)
            if len(names) > 1:
                subs.append(list(reversed(names)))
        if not c.thorough and len(subs) > 24:
            subs = [s for s in subs if len(s) in (0, 1, 2, n)][:40]
        for names in (subs if n else []):
            c.world(True)

            def ob(e=e, names=names):
                o = construct(c, e)
                n = len(e.controls)
                d0 = [tm.sym(f'def{i}') for i in range(n)]
                c.w.it.setattr(o, 'control_default', c.w.arr(d0, (n,)))
                wide(c, o, n)
                pr = Probe(c, e, o)
                val = {k: tm.sym('a_' + k) for k in names}
                act = c.w.it.mkdict([(k, VNum(val[k], 'float')) for k in names])
                what = f'{e.key}.step({{{", ".join(names)}}})'
                out = step(c, o, DT(), act)
                c.returns(out, what)
                ctl = pr.one(c, what)
                c.sure(len(ctl) == n, f'{what}: control has {len(ctl)} elements')
                for i, k in enumerate(e.controls):
                    w = clip(val.get(k, d0[i]), tm.sym(f'lo{i}'), tm.sym(f'lo{i}') + tm.sym(f'w{i}', 'nonneg'))
                    c.eq(ctl[i], w, f'{what}: channel {i} ({k})')
                after(c, e, o, pr, what)
                c.sure(not [x for x in out.events if x['kind'] == 'raise'], f'{what} raises internally')
            c.ob(f'{e.key}/named/{"+".join(names) or "empty"}', 'named actuators set exactly their channel, the others keep the default', ob, 'BaseEntity.step')
        if n > 1:
            c.world(True)

            def shuffled(e=e):
                # names and channels need not come in the same order
                o = construct(c, e)
                n = len(e.controls)
                wide(c, o, n)
                it = c.w.it
                perm = [(i + 1) % n for i in range(n)]
                it.setattr(o, 'control_map', it.mkdict([(f'chan{i}', VNum(T(perm[i]), 'int')) for i in range(n)]))
                d0 = [tm.sym(f'def{i}') for i in range(n)]
                it.setattr(o, 'control_default', c.w.arr(d0, (n,)))
                for sub in ([0], list(range(n)), list(reversed(range(n)))):
                    pr = Probe(c, e, o)
                    out = step(c, o, DT(), it.mkdict([(f'chan{i}', VNum(tm.sym(f'a{i}'), 'float')) for i in sub]))
                    what = f'{e.key} with reordered channels, action on {sub}'
                    c.returns(out, what)
                    ctl = pr.one(c, what)
                    want = list(d0)
                    for i in sub:
                        want[perm[i]] = tm.sym(f'a{i}')
                    for i in range(n):
                        c.eq(ctl[i], clip(want[i], tm.sym(f'lo{i}'), tm.sym(f'lo{i}') + tm.sym(f'w{i}', 'nonneg')), f'{what}: channel {i}')
            c.ob(f'{e.key}/named/reordered', 'a name sets the channel the control map gives it', shuffled, 'BaseEntity.step')
        for kind in ['list', 'array', 'jax', 'none'] + (['intlist', 'intarray'] if n else []):
            c.world(True)

            def ob(e=e, kind=kind):
                o = construct(c, e)
                n = len(e.controls)
                ints = kind.startswith('int')
                k2 = kind[3:] if ints else kind
                wide(c, o, n)
                d0 = [tm.sym(f'def{i}') for i in range(n)]
                c.w.it.setattr(o, 'control_default', c.w.arr(d0, (n,)))
                pr = Probe(c, e, o)
                cmd = [tm.sym(f'k{i}', 'int') if ints else tm.sym(f'u{i}') for i in range(n)]
                if k2 == 'list' and ints:
                    act = c.w.list([VNum(t, 'int') for t in cmd])
                elif k2 == 'array' and ints:
                    act = c.w.arr(cmd, dt='int64')
                else:
                    act = action(c, k2, cmd, e.controls)
                what = f'{e.key}.step({kind})'
                out = step(c, o, DT(), act)
                c.returns(out, what)
                ctl = pr.one(c, what)
                want = d0 if kind == 'none' else cmd
                c.sure(len(ctl) == n, f'{what}: control has {len(ctl)} elements')
                for i in range(n):
                    lo, hi = tm.sym(f'lo{i}'), tm.sym(f'lo{i}') + tm.sym(f'w{i}', 'nonneg')
                    c.eq(ctl[i], clip(want[i], lo, hi), f'{what}: channel {i}')
                after(c, e, o, pr, what)
            c.ob(f'{e.key}/{kind}', 'vector actions are applied element by element, no action applies the default', ob, 'BaseEntity.step')
        for bad in (['unknown', 'unknown-after-known', 'upper-case', 'padded', 'prefix', 'longer', 'number', 'nothing'] if n else ['unknown']) + ['str', 'tuple', 'float', 'int', 'set', 'object']:
            c.world(True)

            def ob(e=e, bad=bad):
                o = construct(c, e)
                it = c.w.it
                # a refusal in the middle of a history: the entity has moved and has a derivative
                it.setattr(o, 'state_dot', c.w.arr(syms(e.n, 'sd'), (e.n,)))
                Probe(c, e, o)
                s_before, d_before = vcells(c, o, 'state'), vcells(c, o, 'state_dot')
                names = ['KeyError']
                if bad == 'unknown':
                    if not e.controls:
                        names = ['KeyError', 'AssertionError']
                    act = it.mkdict([('no_such_actuator', VNum(tm.sym('a'), 'float'))])
                elif bad == 'unknown-after-known':
                    act = it.mkdict([(e.controls[0], VNum(tm.sym('a'), 'float')), ('no_such_actuator', VNum(tm.sym('b'), 'float'))])
                elif bad in ('upper-case', 'padded', 'prefix', 'longer', 'number', 'nothing'):
                    k = e.controls[-1]
                    k = {'upper-case': k.upper(), 'padded': f' {k} ', 'prefix': k[:-1], 'longer': k + '_0', 'number': VNum(T(0), 'int'), 'nothing': ''}[bad]
                    act = it.mkdict([(k, VNum(tm.sym('a'), 'float'))])
                else:
                    names = ['ValueError']
                    act = {'str': 'thrust', 'tuple': VTuple([VNum(tm.sym('a'), 'float')]), 'float': VNum(tm.sym('a'), 'float'), 'int': VNum(T(1), 'int'),
                           'set': it.mklist([VNum(T(1), 'int')], 'set'), 'object': it.new(HInst(it.builtins['object'], {}))}[bad]
                base = it.st
                out = step(c, o, DT(), act)
                c.raises(out, names, f'{e.key}.step(<{bad}>)')
                for st, exc, cls in out.raises:
                    it.st = st
                    for nm_, b in (('state', s_before), ('state_dot', d_before)):
                        a = vcells(c, o, nm_)
                        for i in range(len(b)):
                            c.eq(a[i], b[i], f'{e.key}: {nm_}[{i}] after a refused action')
                it.st = base
            c.ob(f'{e.key}/refuse/{bad}', 'unknown actuator -> KeyError, unsupported type -> ValueError, state and derivative unchanged', ob, 'BaseEntity.step')
        # vector actions that do not hold one value per actuator
        sizes = {str(k): (k,) for k in (0, 1, n - 1, n + 1, 2 * n) if k >= 0 and k != n}
        sizes.update({'no axis': (), 'row': (1, n), 'column': (n, 1)} if n else {})
        for lab, shape in sizes.items():
            for kind in ('list', 'array', 'jax'):
                if kind == 'list' and not shape:
                    continue
                c.world(True)

                def ob(e=e, lab=lab, shape=shape, kind=kind, **kw):
                    o = construct(c, e, **kw)
                    it = c.w.it
                    it.setattr(o, 'state_dot', c.w.arr(syms(e.n, 'sd'), (e.n,)))
                    before = {k: vcells(c, o, k) for k in ('state', 'state_dot')}
                    cnt = 1
                    for d in shape:
                        cnt *= d
                    u = [tm.sym(f'u{i}') for i in range(cnt)]
                    if kind == 'list':
                        vs = [VNum(t, 'float') for t in u]
                        act = c.w.list(vs) if len(shape) == 1 else c.w.list([c.w.list(vs[i * shape[1]:(i + 1) * shape[1]]) for i in range(shape[0])])
                    else:
                        act = c.w.arr(u, shape, jx='jax') if kind == 'jax' else c.w.arr(u, shape)
                    base = it.st
                    out = step(c, o, DT(), act)
                    c.raises(out, ['ValueError'], f'{e.key} with {n} actuators stepped with a {kind} of shape {shape}')
                    for st, exc, cls in out.raises:
                        it.st = st
                        for k, b in before.items():
                            for i, t in enumerate(vcells(c, o, k)):
                                c.eq(t, b[i], f'{e.key}: {k}[{i}] after a refused action')
                    it.st = base
                c.ob(f'{e.key}/shape/{kind}/{lab}', 'an array or list without exactly one value per actuator is refused, state and derivative unchanged', ob, 'BaseEntity.step')
                if 'Euler' in e.methods:
                    c.world(True)
                    c.ob(f'{e.key}/shape/{kind}/{lab}/Euler', 'also where the integration itself would accept the values', lambda ob=ob: ob(integration_method='Euler'), 'BaseEntity.step')


def wide(c, o, n):
    c.w.it.setattr(o, 'control_min', c.w.arr([tm.sym(f'lo{i}') for i in range(n)], (n,)))
    c.w.it.setattr(o, 'control_max', c.w.arr([tm.sym(f'lo{i}') + tm.sym(f'w{i}', 'nonneg') for i in range(n)], (n,)))


def after(c, e, o, pr, what):
    """the state handed to the dynamics and the state adopted afterwards"""
    for p, (dt, s, u), _ in pr.calls:
        c.eq(dt[0], DT(), f'{what}: step size')
        for i, b in enumerate(s0(e)):
            c.eq(s[i], b, f'{what}: state given to the dynamics [{i}]')
    for nm_, want in (('state', pr.next), ('state_dot', pr.dot)):
        a = vcells(c, o, nm_)
        c.sure(len(a) == len(want), f'{what}: {nm_} has {len(a)} elements')
        for i in range(len(want)):
            c.eq(a[i], want[i], f'{what}: {nm_}[{i}] after the step')
