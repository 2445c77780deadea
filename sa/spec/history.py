"""P09 derivative purity, P10 state ownership, P11 construction, accessors and setters."""
from __future__ import annotations

from .common import *
from .control import Probe
from .stepping import linear
from .models import ent_dyn, rotmat, rot_apply


from . import common as _common
from .models import unit_quat


def s0(e, pre='s'):
    """symbolic initial values; an attitude quaternion is a unit quaternion"""
    out = _common.s0(e, pre)
    if e.quat:
        for i, q in zip(e.quat, unit_quat(pre + 'q')):
            out[i] = q
    return out


def construct(c, e, pre='s', name='ego', init=None, **kw):
    return _common.construct(c, e, pre, name, init if init is not None else s0(e, pre), **kw)


def props(c, o):
    """public property names of an object's class"""
    it = c.w.it
    out = []
    for k in it.type_of(o).mro:
        if k.ns is None:
            continue
        for n, v in it.deref(k.ns).vars.items():
            if isinstance(v, VProperty) and not n.startswith('_') and n not in out:
                out.append(n)
    return sorted(out)


def peek(c, o, name):
    """public attribute value, or None when reading it raises"""
    out = c.w.attr(o, name)
    return None if out.raises or out.state is None else out.value


def arrays(c, o):
    """every array an entity hands out through a public property (quantities by their magnitude)"""
    out = []
    for n in props(c, o):
        v = c.w.it.res(peek(c, o, n))
        if isinstance(v, VNative) and v.kind == 'quantity':
            v = c.w.it.res(v.d['m'])
        if isinstance(v, (VArr, VRef)) and c.w.cells(v) is not None:
            out.append((n, v))
    return out


def view(c, o, skip=()):
    """everything numeric an entity reports: property name -> cells"""
    out = {}
    for n in props(c, o):
        if n in skip:
            continue
        v = c.w.it.res(peek(c, o, n))
        if isinstance(v, VNative) and v.kind == 'quantity':
            v = v.d['m']
        x = c.w.cells(v) if v is not None else None
        if x is not None:
            out[n] = x
    v = peek(c, o, 'state_dot')
    if v is not None and c.w.cells(v) is not None:
        out['state_dot'] = c.w.cells(v)
    d = peek(c, o, 'dynamics')
    for n in ('trajectory', 'trajectory_t'):
        v = peek(c, d, n) if d is not None else None
        if v is not None and c.w.cells(c.w.it.res(v)) is not None:
            out['dynamics.' + n] = c.w.cells(c.w.it.res(v))
    return out


def same(c, a, b, what, assume=TRUE):
    for n in sorted(set(a) | set(b)):
        c.sure(n in a and n in b, f'{what}: {n} became {"un" if n in a else ""}available')
        c.sure(len(a[n]) == len(b[n]), f'{what}: {n} changed its length')
        for i, (x, y) in enumerate(zip(a[n], b[n])):
            c.eq(y, x, f'{what}: {n}[{i}]', assume=assume)


_N = [0]


def scribble(c, v):
    """overwrite every element of a mutable container with fresh values (ignored when it is read-only)"""
    w, it = c.w, c.w.it
    v = it.res(v)
    _N[0] += 1
    if isinstance(v, VArr):
        if v.jx:
            return
        import itertools
        for ix in itertools.product(*[range(k) for k in v.shape]):
            key = VNum(T(ix[0]), 'int') if len(ix) == 1 else VTuple([VNum(T(k), 'int') for k in ix])
            w.do(lambda: it.setitem(v, key, VNum(tm.sym(f'junk{_N[0]}_{"_".join(map(str, ix))}'), 'float')))
    elif isinstance(v, VRef):
        ob = it.deref(v)
        if isinstance(ob, HList):
            for k in range(len(it.iterate(v))):
                w.do(lambda: it.setitem(v, VNum(T(k), 'int'), VNum(tm.sym(f'junk{_N[0]}_{k}'), 'float')))
        elif isinstance(ob, HDict):
            for k in it.iterate(v):
                w.do(lambda: it.setitem(v, k, VNum(tm.sym(f'junk{_N[0]}'), 'float')))


def newstate(e, pre):
    out = [tm.sym(f'{pre}_{k}', 'pos') if k == 'v' else tm.sym(f'{pre}_{k}') for k in e.slots]
    if e.quat:
        for i, q in zip(e.quat, unit_quat(pre + 'q')):
            out[i] = q
    return out


def probe(c, e, o, tag='n'):
    pr = Probe(c, e, o, tag)
    pr.next[:] = newstate(e, tag + '_nx')
    return pr


def jaxes(e):
    return [False, True] if e.jax else [False]


# ---------------------------------------------------------------------- P09
def p09(c):
    subj = [(f'{e.key}{"/jax" if j else ""}', (lambda e=e, j=j: entity_subject(c, e, j))) for e in ENTITIES for j in jaxes(e)]
    subj += [(f'linear{"/jax" if j else ""}', (lambda j=j: linear_subject(c, j))) for j in (False, True)]
    for key, build in subj:
        for entry in ('compute_state_dot', 'compute_state_dot_jax', 'state_transition_system', 'state_transition_input'):
            c.world(True)

            def ob(build=build, entry=entry, key=key):
                d, n, m, jx, o = build()
                if peek(c, d, entry) is None:
                    raise Skip_()
                w = c.w

                def args(tag):
                    s = [tm.sym(f'{tag}s{i}', 'pos') if key.startswith('Dubins') and i == n - 1 else tm.sym(f'{tag}s{i}') for i in range(n)]
                    u = syms(m, tag + 'u')
                    S, U = w.arr(s, dt='float32' if jx else 'float64', jx=jx), w.arr(u, (m,), jx=jx)
                    t = VNum(tm.sym(tag + 't'), 'float')
                    a = {'compute_state_dot': [t, S, U], 'compute_state_dot_jax': [S, t, U]}.get(entry, [S])
                    return s, u, S, U, a

                def ev(a, what):
                    return c.w.it.res(c.returns(w.method(d, entry, *a), what))
                s1, u1, S1, U1, a1 = args('a')
                s2, u2, S2, U2, a2 = args('b')
                conf = config(c, d)
                seen = view(c, o) if o is not None else {}
                r1 = ev(a1, f'{key}: {entry}')
                x1 = cells(c, r1)
                for i, (p, q) in enumerate(zip(cells(c, S1), s1)):
                    c.eq(p, q, f'{key}: element {i} of the caller\'s state array after {entry}')
                for i, (p, q) in enumerate(zip(cells(c, U1), u1)):
                    c.eq(p, q, f'{key}: element {i} of the caller\'s control array after {entry}')
                r2 = ev(a2, f'{key}: second {entry}')
                x2 = cells(c, r2)
                for i, (p, q) in enumerate(zip(cells(c, r1), x1)):
                    c.eq(p, q, f'{key}: element {i} of an earlier result after another evaluation')
                r3 = ev(a1, f'{key}: repeated {entry}')
                for i, (p, q) in enumerate(zip(cells(c, r3), x1)):
                    c.eq(p, q, f'{key}: element {i} of a repeated evaluation')
                # a result belongs to the caller: writing into it must not disturb anything
                if entry.startswith('compute') or entry == 'state_transition_system':
                    scribble(c, r3)
                    for i, (p, q) in enumerate(zip(cells(c, S1) + cells(c, U1), s1 + u1)):
                        c.eq(p, q, f'{key}: argument element {i} after writing into the result')
                    r4 = ev(a1, f'{key}: {entry} after writing into a result')
                    for i, (p, q) in enumerate(zip(cells(c, r4), x1)):
                        c.eq(p, q, f'{key}: element {i} after an earlier result was overwritten')
                same(c, conf, config(c, d), f'{key}: model configuration after {entry}')
                if o is not None:
                    same(c, seen, view(c, o), f'{key}: entity after {entry}')
                bad = [e for e in c.w.it.log if e['kind'] in ('random',)]
                c.sure(not bad, f'{key}: {entry} draws random numbers', bad[0]['where'] if bad else None)
            try_ob(c, f'{key}/{entry}', 'evaluation is repeatable, independent of interleaved evaluations, and changes no argument, model or entity', ob)
        for entry in ('compute_state_dot', 'state_transition_system', 'state_transition_input'):
            c.world(True)

            def shared(build=build, entry=entry, key=key):
                # evaluations that agree in some of their arguments: what the second returns does not depend on the first
                def one(mode, k, both):
                    c.world(True)
                    d, n, m, jx, o = build()
                    if peek(c, d, entry) is None:
                        raise Skip_()
                    nm_ = lambda tag, i: tm.sym(f'{tag}s{i}', 'pos') if key.startswith('Dubins') and i == n - 1 else tm.sym(f'{tag}s{i}')
                    res = None
                    for tag in ('a', 'b') if both else ('b',):
                        s = [nm_('a' if tag == 'b' and ((i == k) if mode == 'one' else (i != k)) else tag, i) for i in range(n)]
                        S, U = c.w.arr(s, dt='float32' if jx else 'float64', jx=jx), c.w.arr(syms(m, 'u' if mode == 'all' else tag + 'u'), (m,), jx=jx)
                        t = VNum(tm.sym('t'), 'float')
                        a = [t, S, U] if entry == 'compute_state_dot' else [S]
                        res = cells(c, c.returns(c.w.method(d, entry, *a), f'{key}: {entry}'))
                    return res, n
                _, n = one('one', 0, False)
                for mode in ('one', 'all') if n > 1 else ('one',):
                    for k in range(n):
                        want, _ = one(mode, k, False)
                        got, _ = one(mode, k, True)
                        c.sure(len(got) == len(want), f'{key}: {entry} returns {len(got)} elements after another evaluation, {len(want)} before')
                        for i, (p, q) in enumerate(zip(got, want)):
                            c.eq(p, q, f'{key}: element {i} of {entry} after an evaluation that shares {"component" if mode == "one" else "all but component"} {k}')
            try_ob(c, f'{key}/{entry}/shared', 'the result depends on the arguments only, whatever similar arguments were evaluated before', shared)
        c.world(True)

        def after_step(build=build, key=key):
            d, n, m, jx, o = build()
            w = c.w
            s = [tm.sym(f'as{i}', 'pos') if key.startswith('Dubins') and i == n - 1 else tm.sym(f'as{i}') for i in range(n)]
            u = syms(m, 'au')
            S, U = w.arr(s, dt='float32' if jx else 'float64', jx=jx), w.arr(u, (m,), jx=jx)
            x1 = cells(c, c.returns(w.method(d, 'compute_state_dot', VNum(tm.sym('t'), 'float'), S, U), key))
            q = [tm.sym(f'bs{i}', 'pos') if key.startswith('Dubins') and i == n - 1 else tm.sym(f'bs{i}') for i in range(n)]
            Q, R = w.arr(q, dt='float32' if jx else 'float64', jx=jx), w.arr(syms(m, 'bu'), (m,), jx=jx)
            out = w.method(d, 'step', VNum(DT(), 'float'), Q, R)
            ok = ivp_ok(c)
            c.returns(out, f'{key}: step', assume=ok)
            for i, (a, b) in enumerate(zip(cells(c, Q) + cells(c, R), q + syms(m, 'bu'))):
                c.eq(a, b, f'{key}: argument element {i} after dynamics.step', assume=ok)
            x3 = cells(c, c.returns(w.method(d, 'compute_state_dot', VNum(tm.sym('t'), 'float'), S, U), key, assume=ok))
            for i, (a, b) in enumerate(zip(x3, x1)):
                c.eq(a, b, f'{key}: derivative element {i} after an intervening step', assume=ok)
        c.ob(f'{key}/after-step', 'a step changes neither its arguments nor later derivatives', after_step, 'BaseODESolverDynamics.compute_state_dot')
    # user-defined models may hand back arrays they keep (a constant drift, a constant input matrix) or the state itself
    for base in ('BaseODESolverDynamics', 'BaseControlAffineODESolverDynamics'):
        for what in ('kept array', 'state'):
            for lim in ('none', 'vector'):
                for m_ in ('RK45', 'Euler'):
                    c.world(True)

                    def kept(base=base, what=what, lim=lim, m_=m_):
                        d, f, arrs = keeper(c, base, what, lim, m_)
                        w = c.w
                        s, u = syms(2, 's'), syms(2, 'u')
                        S, U = w.arr(s), w.arr(u)
                        t = VNum(tm.sym('t'), 'float')
                        old = [w.cells(a) for a in arrs]
                        first = None
                        for turn in range(3):
                            if turn == 2:
                                out = w.method(d, 'step', VNum(DT(), 'float'), S, U)
                                c.returns(out, 'step', assume=ivp_ok(c))
                            r = cells(c, c.returns(w.method(d, 'compute_state_dot', t, S, U), 'compute_state_dot', assume=ivp_ok(c)))
                            ok = ivp_ok(c)
                            first = first or r
                            for i in range(2):
                                c.eq(r[i], first[i], f'derivative {i} of a user-defined model evaluated again{" after a step" if turn == 2 else ""}', assume=ok)
                            for a, b in zip(arrs, old):
                                for x, y in zip(w.cells(a), b):
                                    c.eq(x, y, 'array kept by a user-defined model', assume=ok)
                            for x, y in zip(w.cells(S) + w.cells(U), s + u):
                                c.eq(x, y, 'state or control array of the caller', assume=ok)
                    c.ob(f'user/{base[4:-17] or "plain"}/{what}/{lim}/{m_}', 'evaluation changes no array a model keeps and is repeatable', kept, 'BaseODESolverDynamics.compute_state_dot')


def keeper(c, base, what, lim, method):
    """user-defined model whose functions return arrays it keeps, or the very state it was given"""
    w = c.w
    drift, G = w.arr(syms(2, 'drift')), w.arr(syms(4, 'G'), (2, 2))
    arrs = [drift, G]
    bi = lambda nm, f: VBuiltin(nm, f, {'method': True})

    def at(a, k, i, n):
        return k[n] if n in k else a[i]
    pick = (lambda a, k, i: drift) if what == 'kept array' else (lambda a, k, i: at(a, k, i, 'state'))
    if base == 'BaseODESolverDynamics':
        meth = {'_compute_state_dot': bi('_compute_state_dot', lambda i, a, k: pick(a, k, 2))}
    else:
        meth = {'state_transition_system': bi('state_transition_system', lambda i, a, k: pick(a, k, 1)),
                'state_transition_input': bi('state_transition_input', lambda i, a, k: G)}
    cls = VClass('KeepingDynamics', [c.api('base_models.' + base)], nmethods=meth)
    k = {'integration_method': method}
    if lim == 'vector':
        lo = [tm.sym(f'lo{i}') for i in range(2)]
        k['state_min'], k['state_max'] = w.arr(lo), w.arr([x + tm.sym(f'gap{i}', 'pos') for i, x in enumerate(lo)])
        k['state_dot_min'], k['state_dot_max'] = w.arr([-tm.sym(f'dlo{i}', 'nonneg') for i in range(2)]), w.arr([tm.sym(f'dhi{i}', 'nonneg') for i in range(2)])
    return c.returns(w.call(cls, **k), f'a user-defined {base}'), None, arrs


class Skip_(Exception):
    pass


def try_ob(c, key, rule, thunk, anchor='compute_state_dot'):
    """an obligation that does not exist when the entry point does not exist"""
    flag = []

    def t():
        try:
            thunk()
        except Skip_:
            flag.append(1)
    c.ob(key, rule, t, anchor)
    if flag:
        c.results.pop()


def entity_subject(c, e, jx):
    o = construct(c, e, **({'use_jax': True} if jx else {}))
    return vget(c, o, 'dynamics'), e.n, len(e.controls), 'jax' if jx else None, o


def linear_subject(c, jx):
    y = linear(c, 2, 1, 'vector', 'vector', {1: T(0)}, jx, 'Euler' if jx else 'RK45')
    return y.d, 2, 1, 'jax' if jx else None, None


def config(c, d):
    """public numeric attributes of a model"""
    it = c.w.it
    out = {}
    for n, v in it.deref(d).attrs.items():
        if n.startswith('_') or n in ('trajectory', 'trajectory_t'):
            continue
        x = c.w.cells(v) if not isinstance(it.res(v), str) else None
        if x is not None:
            out[n] = x
    return out


# ---------------------------------------------------------------------- P10
def p10(c):
    for jx in (False, True):
        c.world(True)

        def matrices(jx=jx):
            w = c.w
            jk = 'jax' if jx else None
            A, B = syms(4, 'A'), syms(2, 'B')
            a, b = w.arr(A, (2, 2)), w.arr(B, (2, 1))
            d = c.returns(w.call(c.api('base_models.BaseLinearODESolverDynamics'), A=a, B=b, use_jax=VBool(TRUE if jx else FALSE)), 'a linear system')
            s, u = syms(2, 's'), syms(1, 'u')
            want = [A[2 * i] * s[0] + A[2 * i + 1] * s[1] + B[i] * u[0] for i in range(2)]
            scribble(c, a)
            scribble(c, b)
            got = derivative(c, d, s, u, jx=jk)[0]
            for i in range(2):
                c.eq(got[i], want[i], f'linear system: derivative {i} after writing into the matrices passed to the constructor')
        c.ob(f'linear/matrices{"/jax" if jx else ""}', 'a linear system keeps its own copy of its matrices', matrices, 'BaseLinearODESolverDynamics.__init__')
    for e in ENTITIES:
        for jx in jaxes(e):
            kw = {'use_jax': True} if jx else {}
            tag = f'{e.key}{"/jax" if jx else ""}'

            def mk(e=e, kw=kw, pre='s', **k):
                return construct(c, e, pre, **{**kw, **k})
            for when in ('new', 'stepped', 'assigned'):
                c.world(True)

                def reads(e=e, mk=mk, when=when, tag=tag):
                    o = mk()
                    moved(c, e, o, when)
                    before = view(c, o)
                    hs = arrays(c, o)
                    c.sure(any(n == 'state' for n, _ in hs), f'{tag}: no state vector is handed out')
                    for n, h in hs:
                        scribble(c, h)
                        same(c, before, view(c, o), f'{tag} ({when}) after writing into its {n}')
                c.ob(f'{tag}/reads/{when}', 'writing into any handed-out array leaves the entity unchanged', reads, 'BaseEntity.state')
            c.world(True)

            def assign(e=e, mk=mk, tag=tag):
                o = mk()
                new = newstate(e, 'n')
                a = c.w.arr(new)
                c.returns(c.w.do(lambda: c.w.it.setattr(o, 'state', a)), f'{tag}: assigning state')
                before = view(c, o)
                for i, (x, y) in enumerate(zip(before['state'], new)):
                    c.eq(x, y, f'{tag}: state[{i}] after assignment')
                scribble(c, a)
                same(c, before, view(c, o), f'{tag}: after writing into the assigned array')
                b = c.w.arr(syms(e.n, 'm'))
                held = c.w.cells(b)
                c.returns(c.w.do(lambda: c.w.it.setattr(o, 'state', b)), f'{tag}: assigning state')
                for f in e.slots:
                    c.w.do(lambda: c.w.it.setattr(o, f, VNum(tm.sym('later', 'pos'), 'float')))
                for i, (x, y) in enumerate(zip(cells(c, b), held)):
                    c.eq(x, y, f'{tag}: caller array element {i} after setters ran')
            c.ob(f'{tag}/assign', 'an assigned array stays the caller\'s own', assign, 'BaseEntity.state')
            for kind in (['list', 'array', 'jax', 'dict'] if e.controls else ['list', 'array']):
                c.world(True)

                def act(e=e, mk=mk, kind=kind, tag=tag):
                    o = mk()
                    cmd = syms(len(e.controls), 'u')
                    pr = probe(c, e, o)
                    a = action(c, kind, cmd, e.controls)
                    c.returns(step(c, o, DT(), a), f'{tag}: step with a {kind} action')
                    got = [x for k in e.controls for x in cells(c, c.w.it.getitem(a, k))] if kind == 'dict' else cells(c, a)
                    c.sure(len(got) == len(cmd), f'{tag}: the step changed the length of the caller\'s {kind} action')
                    for i, (x, y) in enumerate(zip(got, cmd)):
                        c.eq(x, y, f'{tag}: element {i} of the caller\'s {kind} action after the step')
                    before = view(c, o)
                    scribble(c, a)
                    same(c, before, view(c, o), f'{tag}: after writing into the {kind} action')
                    if e.controls:
                        pr.calls.clear()
                        c.returns(step(c, o, DT(), None), f'{tag}: step without an action')
                        for i, x in enumerate(pr.one(c, tag)):
                            c.eq(x, clip(T(0), e.cmin[i], e.cmax[i]), f'{tag}: default control {i} after a step with a {kind} action')
                c.ob(f'{tag}/action/{kind}', 'stepping leaves the action and the default control alone', act, 'BaseEntity.step')
            for m_ in (e.methods if not jx else ['RK45_JAX']):
                if m_ == 'RK45_JAX' and not jx:
                    continue
                c.world(True)

                def held(e=e, tag=tag, m_=m_):
                    o = construct(c, e, **method_kw(e, m_))
                    for k in range(2):
                        hs = arrays(c, o) + [('state_dot', vget(c, o, 'state_dot'))]
                        old = [c.w.cells(h) for _, h in hs]
                        u = action(c, 'array', syms(len(e.controls), f'u{k}'))
                        out = step(c, o, DT(), u)
                        ok = ivp_ok(c)
                        c.returns(out, f'{tag}: step', assume=ok)
                        for (n, h), x in zip(hs, old):
                            for i, (p, q) in enumerate(zip(c.w.cells(h), x)):
                                c.eq(p, q, f'{tag}: element {i} of the {n} handed out before the step ({m_})', assume=ok)
                        # restart from a plain symbolic state so that the second step stays small
                        c.w.it.setattr(o, 'state', c.w.arr(newstate(e, 'h')))
                c.ob(f'{tag}/held/{m_}', 'arrays handed out before a step keep their values', held, 'BaseEntity.step')
            for order in ('other-first', 'other-last'):
                c.world(True)

                def pair(e=e, mk=mk, order=order, tag=tag):
                    if order == 'other-first':
                        b, a = mk(pre='b', name='b'), mk(pre='a', name='a')
                    else:
                        a, b = mk(pre='a', name='a'), mk(pre='b', name='b')
                    seen = view(c, b)
                    for k, kind in enumerate(['dict', 'array'] if e.controls else ['array']):
                        out = step(c, a, DT(), action(c, kind, syms(len(e.controls), f'u{k}'), e.controls))
                        ok = ivp_ok(c)
                        c.returns(out, f'{tag}: step', assume=ok)
                        same(c, seen, view(c, b), f'{tag}: another entity after a step with a {kind} action', assume=ok)
                        c.w.it.setattr(a, 'state', c.w.arr(newstate(e, 'h')))
                        same(c, seen, view(c, b), f'{tag}: another entity after a state assignment')
                    for f in e.slots:
                        c.w.do(lambda: c.w.it.setattr(a, f, VNum(tm.sym('later', 'pos'), 'float')))
                    for n, h in arrays(c, a):
                        scribble(c, h)
                    # actuator settings of one entity are its own
                    for n in ('control_default', 'control_min', 'control_max'):
                        h, g = c.w.it.res(peek(c, a, n)), c.w.it.res(peek(c, b, n))
                        if isinstance(h, (VArr, VRef)) and c.w.cells(h) is not None and isinstance(g, (VArr, VRef)):
                            old = c.w.cells(g)
                            scribble(c, h)
                            for i, (x, y) in enumerate(zip(c.w.cells(g), old)):
                                c.eq(x, y, f'{tag}: {n}[{i}] of another entity after writing into this one\'s')
                    same(c, seen, view(c, b), f'{tag}: another entity after setters and external writes')
                    # entities created later start from their own values
                    n = mk(pre='n', name='n')
                    for i, x in enumerate(vcells(c, n, 'state', e.n)):
                        c.eq(x, s0(e, 'n')[i], f'{tag}: state[{i}] of an entity created after others were used')
                    if e.controls:
                        pr = probe(c, e, b)
                        c.returns(step(c, b, DT(), None), f'{tag}: step of the other entity')
                        for i, x in enumerate(pr.one(c, tag)):
                            c.eq(x, clip(T(0), e.cmin[i], e.cmax[i]), f'{tag}: default control {i} of the other entity')
                        for i, (p, q) in enumerate(zip(pr.calls[-1][1][1], seen['state'])):
                            c.eq(p, q, f'{tag}: state[{i}] the other entity steps from')
                c.ob(f'{tag}/pair/{order}', 'two entities never influence each other', pair, 'BaseEntity')
            c.world(True)

            def cross(e=e, mk=mk, tag=tag):
                # steps of one entity give the same result whether or not another entity stepped before
                a = mk(pre='a', name='a')
                b = mk(pre='a', name='b')
                u = syms(len(e.controls), 'u')
                c.returns(step(c, a, DT(), action(c, 'array', u)), f'{tag}: step', assume=ivp_ok(c))
                ok = ivp_ok(c)
                va = view(c, a)
                out = step(c, b, DT(), action(c, 'array', u))
                ok = c_and(ok, ivp_ok(c))
                c.returns(out, f'{tag}: step', assume=ok)
                same(c, va, view(c, b), f'{tag}: twin stepped with the same command', assume=ok)
                same(c, va, view(c, a), f'{tag}: first entity after its twin stepped', assume=ok)
            c.ob(f'{tag}/twins', 'equal entities given equal commands stay equal; neither disturbs the other', cross, 'BaseEntity')
    # different entity classes side by side
    c.world(True)

    def zoo():
        os = [(e, construct(c, e, f'z{k}', name=f'n{k}')) for k, e in enumerate(ENTITIES)]
        seen = [view(c, o) for _, o in os]
        for k, (e, o) in enumerate(os):
            probe(c, e, o, f'p{k}')
            c.returns(step(c, o, DT(), action(c, 'dict', syms(len(e.controls), 'u'), e.controls) if e.controls else None), f'{e.key}: step')
            seen[k] = view(c, o)
            for j, (f, p) in enumerate(os):
                if j != k:
                    same(c, seen[j], view(c, p), f'{f.key} after {e.key} stepped')
    c.ob('all-classes', 'entities of different classes never influence each other', zoo, 'BaseEntity')


def moved(c, e, o, when):
    if when == 'stepped':
        probe(c, e, o)
        c.returns(step(c, o, DT(), None), f'{e.key}.step()')
    elif when == 'assigned':
        c.w.it.setattr(o, 'state', c.w.arr(newstate(e, 'n')))


# ---------------------------------------------------------------------- P11
SETTERS = {'Dubins2dAircraft': ['x', 'y', 'heading', 'v'], 'Dubins3dAircraft': ['x', 'y', 'z', 'heading', 'gamma', 'roll', 'v']}
ALIASES = {'Dubins2dAircraft': {'yaw': 'heading'}, 'Dubins3dAircraft': {'yaw': 'heading', 'pitch': 'gamma'}}


def accessors(c, e, o, s, what, assume=TRUE, quat=True):
    """every accessor of the entity against the state s"""
    ix = {k: i for i, k in enumerate(e.slots)}
    for i, (x, y) in enumerate(zip(vcells(c, o, 'state', e.n), s)):
        c.eq(x, y, f'{what}: state[{i}]', assume=assume)
    for k, i in ix.items():
        c.eq(cells(c, vget(c, o, k))[0], s[i], f'{what}: {k}', assume=assume)
    val = lambda k: T(0) if k == 0 else s[ix[k]]
    if e.pos is not None:
        p = vcells(c, o, 'position')
        c.sure(len(p) == len(e.pos) or len(p) == 3, f'{what}: position has {len(p)} elements')
        for i, k in enumerate(list(e.pos) + [0] * (len(p) - len(e.pos))):
            c.eq(p[i], val(k), f'{what}: position[{i}]', assume=assume)
        for j, k in enumerate('xyz'):
            v = peek(c, o, k)
            if v is not None:
                c.eq(c.w.cells(v)[0], val(k) if k in ix else T(0), f'{what}: {k}', assume=assume)
    if e.vel is not None:
        p = vcells(c, o, 'velocity')
        for i, k in enumerate(list(e.vel) + [0] * (len(p) - len(e.vel))):
            c.eq(p[i], val(k), f'{what}: velocity[{i}]', assume=assume)
    if e.quat and quat:
        for i, (x, y) in enumerate(zip(vcells(c, o, 'quaternion', 4), [s[k] for k in e.quat])):
            c.eq(x, y, f'{what}: quaternion[{i}]', assume=assume)
    if 'wz' in ix:
        for i, x in enumerate(vcells(c, o, 'angular_velocity', 3)):
            k = 'w' + 'xyz'[i]
            c.eq(x, val(k) if k in ix else T(0), f'{what}: angular_velocity[{i}]', assume=assume)
    for a, k in ALIASES.get(e.key, {}).items():
        v = peek(c, o, a)
        if v is not None:
            c.eq(c.w.cells(v)[0], val(k), f'{what}: {a}', assume=assume)
    # motion the entity does not have reads as zero
    al = ALIASES.get(e.key, {})
    for k in () if e.pos is None else ('x_dot', 'y_dot', 'z_dot', 'wx', 'wy', 'gamma', 'roll', 'pitch'):
        if k in ix or k in al:
            continue
        v = peek(c, o, k)
        if v is not None and c.w.cells(v) is not None:
            c.eq(c.w.cells(v)[0], T(0), f'{what}: {k} (the entity has no such motion)', assume=assume)


def facing(c, e, o, s, what):
    """orientation applied to the body axes"""
    ix = {k: i for i, k in enumerate(e.slots)}
    if e.quat or e.pos is None:
        return
    R = vget(c, o, 'orientation')
    C, S = (lambda t: tm.fn('cos', t)), (lambda t: tm.fn('sin', t))
    if 'heading' in ix or 'theta' in ix:
        y = s[ix['heading' if 'heading' in ix else 'theta']]
        p = s[ix['gamma']] if 'gamma' in ix else T(0)
        r = s[ix['roll']] if 'roll' in ix else T(0)
    else:
        y = p = r = T(0)
    x = rot_apply(c, R, [1, 0, 0])
    for i, (a, b) in enumerate(zip(x, [C(y) * C(p), S(y) * C(p), -S(p)])):
        c.eq(a, b, f'{what}: component {i} of the local x axis')
    z = rot_apply(c, R, [0, 0, 1])
    for i, (a, b) in enumerate(zip(z, [S(y) * S(r) + C(y) * S(p) * C(r), -C(y) * S(r) + S(y) * S(p) * C(r), C(p) * C(r)])):
        c.eq(a, b, f'{what}: component {i} of the local z axis')


QUNITS = {'length': ('meter', 'foot'), 'velocity': ('meter/second', 'knot'), 'angle': ('radian', 'degree'), 'angrate': ('radian/second', 'degree/second')}


def p11(c):
    for e in ENTITIES:
        for jx in jaxes(e):
            kw = {'use_jax': True} if jx else {}
            tag = f'{e.key}{"/jax" if jx else ""}'
            c.world(True)

            def full(e=e, kw=kw, tag=tag):
                o = construct(c, e, **kw)
                accessors(c, e, o, s0(e), tag)
                facing(c, e, o, s0(e), tag)
                nm_ = c.w.it.res(vget(c, o, 'name'))
                c.sure(nm_ == 'ego', f'{tag}: name is {nm_!r}')
                for i, x in enumerate(vcells(c, o, 'state_dot', e.n)):
                    c.eq(x, T(0), f'{tag}: state_dot[{i}] before any step')
            c.ob(f'{tag}/all', 'accessors report the construction values', full, e.path)
            c.world(True)

            def none(e=e, kw=kw, tag=tag):
                o = construct(c, e, init=[None] * e.n, **kw)
                s = [T(e.default.get(f, 0)) for f in e.slots]
                accessors(c, e, o, s, f'{tag} with defaults')
                facing(c, e, o, s, f'{tag} with defaults')
                if e.quat:
                    q = vcells(c, o, 'quaternion', 4)
                    c.eq(sum((x * x for x in q), T(0)), T(1), f'{tag}: squared norm of the default attitude')
                d = vget(c, o, 'dynamics')
                for nme, sgn in (('state_min', 1), ('state_max', -1)):
                    lim = cells(c, vget(c, d, nme))
                    lim = lim * e.n if len(lim) == 1 else lim
                    for i, x in enumerate(lim):
                        c.le((x - s[i]) * T(sgn), T(0), f'{tag}: default {e.slots[i]} against {nme}')
            c.ob(f'{tag}/defaults', 'omitted values take neutral, valid defaults', none, e.path)
        for f, slot in zip(e.fields, e.slots):
            c.world(True)

            def only(e=e, f=f, slot=slot):
                v = tm.sym('val', 'pos') if slot == 'v' else tm.sym('val')
                s = [T(e.default.get(k, 0)) for k in e.slots]
                s[e.slots.index(slot)] = v
                o = construct(c, e, init=[v if k == f else None for k in e.fields])
                accessors(c, e, o, s, f'{e.key}({f}=value)', quat=not f.startswith('q'))
            c.ob(f'{e.key}/only-{f}', 'one construction value reaches exactly its component', only, e.path)
            for kind in ('int', 'bool-free zero', 'negative'):
                c.world(True)

                def typed(e=e, f=f, slot=slot, kind=kind):
                    v = {'int': VNum(T(210), 'int'), 'bool-free zero': VNum(T(0), 'float'), 'negative': VNum(T(-3), 'int')}[kind]
                    s = s0(e)
                    s[e.slots.index(slot)] = v.t
                    k = {'name': 'ego'}
                    for g, t in zip(e.fields, s0(e)):
                        k[g] = VNum(t, 'float')
                    k[f] = v
                    o = c.returns(c.w.call(c.api(e.path), **k), f'{e.key}({f}={v.t})')
                    accessors(c, e, o, s, f'{e.key}({f}={v.t})', quat=not f.startswith('q'))
                c.ob(f'{e.key}/{f}/{kind}', 'an integer, zero or negative value is taken as given', typed, e.path)
            for kind, v in (('infinite', tm.INF), ('negative infinite', -tm.INF), ('nan', tm.NAN)):
                c.world(True)

                def limitless(e=e, f=f, slot=slot, kind=kind, v=v):
                    s = s0(e)
                    k = {'name': 'ego'}
                    for g, t in zip(e.fields, s):
                        k[g] = VNum(t, 'float')
                    k[f] = VNum(v, 'float')
                    out = c.w.call(c.api(e.path), **k)
                    if out.raises:
                        return
                    o = c.returns(out, f'{e.key}({f}={kind})')
                    for i, x in enumerate(vcells(c, o, 'state', e.n)):
                        if e.slots[i] != slot:
                            c.eq(x, s[i], f'{e.key}({f}={kind}): state[{i}]')
                        else:
                            if tm.has_nan(x) is not (kind == 'nan') or kind != 'nan' and not tm.show(x) == tm.show(v):
                                if tm.has_nan(x) or x.const() is not None:
                                    c.sure(False, f'{e.key}({f}={kind}): state[{i}] is {tm.show(x)}')
                                raise Undecided(f'state[{i}] is {tm.show(x)}')
                c.ob(f'{e.key}/{f}/{kind}', 'a value that is not finite, where accepted, is taken as given', limitless, e.path)
        for f, kind in e.uslots.items():
            from .config import own, qty
            from ..libphys import parse_unit
            for unit in QUNITS[kind]:
                c.world(True)

                def quant(e=e, f=f, kind=kind, unit=unit):
                    v = tm.sym('val', 'pos') if f == 'v' else tm.sym('val')
                    s = s0(e)
                    s[e.fields.index(f)] = v * parse_unit(unit)[1] / own(e, kind)[1]
                    k = {'name': 'ego'}
                    for g, t in zip(e.fields, s0(e)):
                        k[g] = VNum(t, 'float')
                    k[f] = qty(v, unit)
                    o = c.returns(c.w.call(c.api(e.path), **k), f'{e.key}({f}=<{unit}>)')
                    accessors(c, e, o, s, f'{e.key}({f}=<{unit}>)', quat=False)
                c.ob(f'{e.key}/{f}/{unit}', 'a value given as a quantity is the amount it stands for', quant, e.path)
        c.world(True)

        def follow(e=e):
            o = construct(c, e)
            pr = probe(c, e, o)
            accessors(c, e, o, s0(e), f'{e.key} before a step')
            c.returns(step(c, o, DT(), None), f'{e.key}.step()')
            accessors(c, e, o, pr.next, f'{e.key} after a step')
            facing(c, e, o, pr.next, f'{e.key} after a step')
            new = newstate(e, 'a')
            c.returns(c.w.do(lambda: c.w.it.setattr(o, 'state', c.w.arr(new))), f'{e.key}: assigning state')
            accessors(c, e, o, new, f'{e.key} after assigning the state')
            facing(c, e, o, new, f'{e.key} after assigning the state')
        c.ob(f'{e.key}/follow', 'accessors follow the state through steps and assignments', follow, e.path)
        for f in SETTERS.get(e.key, []):
            c.world(True)

            def setter(e=e, f=f):
                o = construct(c, e)
                v = tm.sym('val', 'pos') if f == 'v' else tm.sym('val')
                c.returns(c.w.do(lambda: c.w.it.setattr(o, f, VNum(v, 'float'))), f'{e.key}.{f} = value')
                s = s0(e)
                s[e.slots.index(f)] = v
                accessors(c, e, o, s, f'{e.key} after setting {f}')
            c.ob(f'{e.key}/set-{f}', 'a setter changes exactly its component', setter, e.path)
    # two entities of one class keep their own values, in any order
    for e in ENTITIES:
        c.world(True)

        def two(e=e):
            a = construct(c, e, 'a', name='a')
            b = construct(c, e, 'b', name='b')
            d = construct(c, e, init=[None] * e.n, name='d')
            accessors(c, e, a, s0(e, 'a'), f'first {e.key}')
            accessors(c, e, b, s0(e, 'b'), f'second {e.key}')
            accessors(c, e, d, [T(e.default.get(k, 0)) for k in e.slots], f'third, default {e.key}')
        c.ob(f'{e.key}/several', 'values given to one entity do not reach another', two, e.path)
