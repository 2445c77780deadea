"""P33 safety verifier, P34 Euler integrator, P35 helpers of the F-16 package."""
from __future__ import annotations

import re
from itertools import product

from .common import *
from .f16tab import num
from .f16 import controller, AB

UT = AB + 'util.'
RAD2DEG = 180 / PI


# ---------------------------------------------------------------------- P33
LIMS = [('altitude', 'alt', False), ('Nz', 'nz', False), ('v', 'vt', False), ('alpha', 'alpha', False), ('psMaxAccelDeg', 'ps', True), ('betaMaxDeg', 'beta', True)]
SLOT = {'vt': 0, 'alpha': 1, 'beta': 2, 'alt': 11}


def p33(c):
    w = c.world()

    def results(ticks, width, extra=None):
        cells_ = [[tm.sym(f't{i}_{j}') for j in range(width)] for i in range(ticks)]
        nz = [tm.sym(f't{i}_nz') for i in range(ticks)]
        ps = [tm.sym(f't{i}_ps') for i in range(ticks)]
        d = w.it.mkdict([('states', w.arr([x for r in cells_ for x in r], (ticks, width))), ('Nz_list', w.list([num(x) for x in nz])),
                         ('ps_list', w.list([num(x) for x in ps]))])
        val = lambda i, q: nz[i] if q == 'nz' else ps[i] if q == 'ps' else cells_[i][SLOT[q]]
        return d, val

    def limits(names, none=()):
        kw, lim = {}, {}
        for n, q, upper in LIMS:
            if n in names:
                if upper:
                    t = tm.sym(f'{n}_max')
                    kw[n], lim[n] = num(t), (None, t)
                else:
                    a, b = tm.sym(f'{n}_min'), tm.sym(f'{n}_max')
                    kw[n], lim[n] = VTuple([num(a), num(b)]), (a, b)
            elif n in none:
                kw[n] = None
        return c.returns(w.call(c.api(UT + 'SafetyLimits'), **kw), 'SafetyLimits'), lim

    def safe(lim, val, ticks):
        cond = TRUE
        for i in range(ticks):
            for n, q, upper in LIMS:
                if n not in lim:
                    continue
                lo, hi = lim[n]
                x = val(i, q)
                if upper:
                    cond = c_and(cond, tm.le0(x * RAD2DEG - hi))
                else:
                    cond = c_and(cond, tm.le0(lo - x), tm.le0(x - hi))
        return cond

    def verify(names, ticks, llc, what, none=()):
        w.fresh()
        so, lim = limits(names, none)
        width = 16 if llc else 13
        kw = {'llc': controller(c)} if llc else {}
        v = c.returns(w.call(c.api(UT + 'SafetyLimitsVerifier'), so, **kw), 'SafetyLimitsVerifier')
        d, val = results(ticks, width)
        out = w.method(v, 'verify', d)
        ok = safe(lim, val, ticks)
        c.iff(out.ok_pc, ok, f'{what}: accepted exactly when every tick is within the limits')
        for st, exc, cls in out.raises:
            if st.pc is not FALSE:
                c.sure(any(k.name == 'AssertionError' for k in cls.mro), f'{what}: rejects with {cls.name} instead of AssertionError')
    for llc in (False, True):
        lab = 'with controller' if llc else 'plain'
        for n, q, upper in LIMS:
            for ticks in (1, 2, 3):
                c.ob(f'{lab}/{n}/{ticks} ticks', 'assertion raised exactly when some tick breaks the limit',
                     lambda n=n, ticks=ticks, llc=llc, lab=lab: verify([n], ticks, llc, f'{n} limit, {ticks} ticks, {lab}'), UT + 'SafetyLimitsVerifier.verify')
        for a, (n, _, _) in enumerate(LIMS):
            for m, _, _ in LIMS[a + 1:]:
                c.ob(f'{lab}/{n}+{m}', 'limits are independent', lambda n=n, m=m, llc=llc, lab=lab: verify([n, m], 1, llc, f'{n} and {m} limits, {lab}'),
                     UT + 'SafetyLimitsVerifier.verify')
        c.ob(f'{lab}/all', 'all limits together', lambda llc=llc, lab=lab: verify([n for n, _, _ in LIMS], 1, llc, f'all limits, {lab}'), UT + 'SafetyLimitsVerifier.verify')
        c.ob(f'{lab}/all/2', 'all limits together', lambda llc=llc, lab=lab: verify([n for n, _, _ in LIMS], 2, llc, f'all limits, two ticks, {lab}'),
             UT + 'SafetyLimitsVerifier.verify')
        c.ob(f'{lab}/none', 'limits that are not configured never reject', lambda llc=llc, lab=lab: verify([], 2, llc, f'no limits, {lab}'), UT + 'SafetyLimitsVerifier.verify')
        c.ob(f'{lab}/explicit none', 'limits configured as None never reject',
             lambda llc=llc, lab=lab: verify(['v'], 2, llc, f'limits given as None, {lab}', [n for n, _, _ in LIMS if n != 'v']), UT + 'SafetyLimitsVerifier.verify')

    def insane(llc):
        def r():
            w.fresh()
            so, _ = limits([])
            kw = {'llc': controller(c)} if llc else {}
            v = c.returns(w.call(c.api(UT + 'SafetyLimitsVerifier'), so, **kw), 'SafetyLimitsVerifier')
            d, _ = results(1, 14 if llc else 12)
            c.raises(w.method(v, 'verify', d), ['AssertionError'], 'results with the wrong number of state variables')
        return r
    for llc in (False, True):
        c.ob(f'shape/{"with controller" if llc else "plain"}', 'results of the wrong width are refused', insane(llc), UT + 'SafetyLimitsVerifier.verify')

    def untouched():
        w.fresh()
        so, lim = limits([n for n, _, _ in LIMS])
        v = c.returns(w.call(c.api(UT + 'SafetyLimitsVerifier'), so), 'SafetyLimitsVerifier')
        d, val = results(1, 13)
        w.assume(safe(lim, val, 1))
        for _ in range(2):
            c.returns(w.method(v, 'verify', d), 'verify', w.it.st.pc)
        st = w.cells(w.it.res(w.it.getitem(d, 'states')))
        for j, t in enumerate(st):
            c.eq(t, tm.sym(f't0_{j}'), f'states[{j}] after verification')
    c.ob('untouched', 'verification leaves the results alone and is repeatable', untouched, UT + 'SafetyLimitsVerifier.verify')

    def again(how):
        def r():
            w.fresh()
            so, lim = limits(['altitude', 'Nz', 'betaMaxDeg'])
            v = c.returns(w.call(c.api(UT + 'SafetyLimitsVerifier'), so), 'SafetyLimitsVerifier')
            d, val = results(2, 13)
            w.assume(safe(lim, val, 2))
            c.returns(w.method(v, 'verify', d), 'verify', w.it.st.pc)
            pre = w.it.st.pc
            new = {(i, j): tm.sym(f'new{i}_{j}') for i in range(2) for j in list(range(13)) + ['nz', 'ps']}
            if how == 'limits':
                lim = {'altitude': (tm.sym('other_min'), tm.sym('other_max')), 'Nz': lim['Nz'], 'betaMaxDeg': lim['betaMaxDeg']}
                w.it.setattr(so, 'altitude', VTuple([num(x) for x in lim['altitude']]))
                at = val
            elif how == 'other results':
                d = w.it.mkdict([('states', w.arr([new[i, j] for i in range(2) for j in range(13)], (2, 13))), ('Nz_list', w.list([num(new[i, 'nz']) for i in range(2)])),
                                 ('ps_list', w.list([num(new[i, 'ps']) for i in range(2)]))])
                at = lambda i, q: new[i, q] if q in ('nz', 'ps') else new[i, SLOT[q]]
            else:
                st = w.it.getitem(d, 'states')
                for j in range(13):
                    w.it.setitem(st, VTuple([VNum(T(1), 'int'), VNum(T(j), 'int')]), num(new[1, j]))
                w.it.setitem(w.it.getitem(d, 'Nz_list'), VNum(T(1), 'int'), num(new[1, 'nz']))
                at = lambda i, q: (val(i, q) if i == 0 else new[i, q] if q == 'nz' else val(i, q) if q == 'ps' else new[i, SLOT[q]])
            out = w.method(v, 'verify', d)
            c.iff(out.ok_pc, safe(lim, at, 2), f'second verification ({how}): accepted exactly when every tick is within the limits', assume=pre)
        return r
    for how in ('limits', 'other results', 'rewritten results'):
        c.ob(f'again/{how}', 'a verification judges the results and limits as they are then', again(how), UT + 'SafetyLimitsVerifier.verify')


# ---------------------------------------------------------------------- P34
class Deriv:
    """derivative function supplied by the caller; records its calls"""

    def __init__(self, c, n):
        self.c, self.n, self.calls = c, n, []

        def f(i, a, k):
            t, y = c.w.cells(i.res(a[0]))[0], c.w.cells(i.res(a[1]))
            self.calls.append((i.st.pc, t, y))
            return i.mkarr(self.at(t, y), (n,), 'float64')
        self.fn = VBuiltin('der', f)

    def at(self, t, y):
        return [tm.fn(f'der{j}', t, *y) for j in range(self.n)]


def p34(c):
    w = c.world()
    N = 2
    t0, h = tm.sym('t0'), tm.sym('h', 'pos')
    y0 = syms(N, 'y')
    span = tm.sym('span', 'pos')
    tol = tm.sym('tol', 'nonneg')

    def make(tend, step, tol_=None, start=t0):
        w.fresh()
        d = Deriv(c, N)
        ys = w.arr(y0)
        kw = {'step': num(step)}
        if tol_ is not None:
            kw['time_tol'] = num(tol_)
        e = c.returns(w.call(c.api(UT + 'Euler'), d.fn, num(start), ys, num(tend), **kw), 'Euler(...)')
        return d, e, ys

    def status(e, what):
        v = w.it.res(vget(c, e, 'status'))
        return v

    def is_status(e, s):
        """condition under which the status equals s"""
        def has(v):
            v = v if isinstance(v, VPhi) else w.it.res(v)
            if isinstance(v, VPhi):
                return tm.c_ite(v.c, has(v.a), has(v.b))
            if not isinstance(v, str):
                raise Undecided(f'status is {v!r}')
            return TRUE if v == s else FALSE
        return has(vget(c, e, 'status'))

    def now(e):
        return vcells(c, e, 't')[0], vcells(c, e, 'y', N)

    # ---- generic first step: end = start + span, any step, any tolerance
    memo = {}

    def first(default_tol):
        if default_tol not in memo:
            tl = None if default_tol else tol
            d, e, ys = make(t0 + span, h, tl)
            w.it.st = State(w.it.st.heap, TRUE)
            c.returns(w.method(e, 'step'), 'step()')
            memo[default_tol] = (d, e, ys, now(e), [w.cells(w.it.res(vget(c, e, n))) for n in ('tprev', 'yprev')], w.cells(ys), [is_status(e, n) for n in ('finished', 'running')])
        return memo[default_tol]
    TOL = F('1e-9')
    for df in (True, False):
        lab = 'default tolerance' if df else 'given tolerance'
        tl = T(TOL) if df else tol
        last = tm.le0(span - h - tl)

        def time(df=df, last=last, lab=lab):
            d, e, ys, (t, y), prev, *_ = first(df)
            c.eq(t, tm.ite(last, t0 + span, t0 + h), f'time after one step ({lab})')
        c.ob(f'step/time/{lab}', 'time advances by the step, the last step is shortened onto the end', time, UT + 'Euler.step')

        def bound(df=df, lab=lab):
            d, e, ys, (t, y), prev, *_ = first(df)
            c.le(t, t0 + span, f'time never passes the end ({lab})')
            c.le(t0, t, f'time does not go back ({lab})', strict=True)
        c.ob(f'step/bound/{lab}', 'time never passes the end and never goes back', bound, UT + 'Euler.step')

        def value(df=df, last=last, lab=lab):
            d, e, ys, (t, y), prev, *_ = first(df)
            dt = tm.ite(last, span, h)
            for a, b, k in zip(y, d.at(t0, y0), y0):
                c.eq(a, k + dt * b, f'state after one step ({lab})')
            c.eq(prev[0][0], t0, 'previous time')
            for a, b in zip(prev[1], y0):
                c.eq(a, b, 'previous state')
        c.ob(f'step/state/{lab}', 'state advances by elapsed time times the derivative at the start of the step', value, UT + 'Euler.step')

        def start(df=df):
            for a, b in zip(first(df)[5], y0):
                c.eq(a, b, 'the caller\'s start state')
        c.ob(f'step/start state/{lab}', 'the caller\'s start state is not modified', start, UT + 'Euler.__init__')

    # ---- whole runs: n full steps and a remainder of part of a step
    runs = [(n, r) for n in range(0, 5 if c.thorough else 4) for r in ('part', 'exact')]
    for n, r in runs:
        if n == 0 and r == 'exact':
            continue

        def run(n=n, r=r):
            f = tm.bounded('frac', 0, 1, True, True)
            total = n + (f if r == 'part' else 0)
            d, e, ys = make(t0 + total * h, h, T(0))
            steps = n + (1 if r == 'part' else 0)
            t, y = t0, list(y0)
            for k in range(steps):
                c.true(is_status(e, 'running'), f'status is running before step {k + 1} of {steps}', w.it.st.pc)
                c.returns(w.method(e, 'step'), f'step {k + 1}')
                dt = h if k < n else f * h
                y = [a + dt * b for a, b in zip(y, d.at(t, y))]
                t = t + dt
                tt, yy = now(e)
                c.eq(tt, t, f'time after step {k + 1} of {steps}')
                for a, b in zip(yy, y):
                    c.eq(a, b, f'state after step {k + 1} of {steps}')
            c.true(is_status(e, 'finished'), 'status is finished after the end time is reached', w.it.st.pc)
            k0 = len(d.calls)
            c.returns(w.method(e, 'step'), 'step() when finished')
            tt, yy = now(e)
            c.eq(tt, t0 + total * h, 'time after stepping a finished integration')
            for a, b in zip(yy, y):
                c.eq(a, b, 'state after stepping a finished integration')
            c.sure(len(d.calls) == k0, 'the derivative is not evaluated after the end')
            for a, b in zip(w.cells(ys), y0):
                c.eq(a, b, 'the caller\'s start state')
        c.ob(f'run/{n} steps{" and a part" if r == "part" else ""}', 'lands exactly on the end time, then does nothing', run, UT + 'Euler.step')

    for df in (True, False):
        lab = 'default tolerance' if df else 'given tolerance'

        def ends(df=df, lab=lab):
            # finished exactly when the time is the end time
            d, e, ys, (t, y), prev, *_ = first(df)
            fin, run_ = first(df)[6]
            at = c_and(tm.le0(t - t0 - span), tm.le0(t0 + span - t))
            c.iff(fin, at, f'finished exactly when the end time is reached ({lab})')
            c.iff(run_, c_not(at), f'running exactly while the end time is ahead ({lab})')
        c.ob(f'step/status/{lab}', 'finishes exactly on the end time', ends, UT + 'Euler.step')

    def tolerance():
        # one full step that misses the end by less than the tolerance is the last one
        d, e, ys = make(t0 + h + tol / 2, h, tol)
        w.assume(tm.lt0(-tol))
        c.returns(w.method(e, 'step'), 'step()')
        t, y = now(e)
        c.eq(t, t0 + h + tol / 2, 'end time within the tolerance is landed on', w.it.st.pc)
        st = w.it.res(vget(c, e, 'status'))
        c.sure(st == 'finished', f'status {st!r} when the end is within the tolerance')
    c.ob('tolerance', 'an end within the tolerance is landed on', tolerance, UT + 'Euler.step')

    # ---- dense output
    def dense(n, later, last=False):
        def r():
            f = tm.bounded('part', 0, 1, True, False)
            d, e, ys = make(t0 + (n - 1 + f if last else 10) * h, h, T(0))
            for k in range(n):
                c.returns(w.method(e, 'step'), 'step()')
            t1, y1 = now(e)
            dt = f * h if last else h
            if last:
                c.eq(t1, t0 + (n - 1 + f) * h, 'time after the shortened last step')
            tp, yp = w.cells(w.it.res(vget(c, e, 'tprev')))[0], w.cells(w.it.res(vget(c, e, 'yprev')))
            f = c.returns(w.method(e, 'dense_output'), 'dense_output()')
            for k in range(later):
                c.returns(w.method(e, 'step'), 'step()')
            s = tm.sym('s')
            for tt, what in ((tp, 'start'), (t1, 'end'), (tp + s, 'any time')):
                v = cells(c, c.returns(w.call(f, num(tt)), 'dense output'), 'dense output')
                for a, p, q in zip(v, yp, y1):
                    c.eq(a, p + (q - p) * ((tt - tp) / dt), f'dense output at {what} of the step, {later} steps later')
            from .history import scribble
            out = c.returns(w.call(f, num(tp)), 'dense output')
            scribble(c, out)
            v = cells(c, c.returns(w.call(f, num(t1)), 'dense output'), 'dense output')
            for a, q in zip(v, y1):
                c.eq(a, q, 'dense output after a previous output was overwritten')
            if not later:
                tt, yy = now(e)
                c.eq(tt, t1, 'time after dense output')
                for a, b in zip(yy, y1):
                    c.eq(a, b, 'state after dense output')
        return r
    for n, later in ((1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (3, 2)):
        c.ob(f'dense/{n} steps/{later} later', 'linear interpolation between the step\'s end points, also after the integrator moves on', dense(n, later), UT + 'Euler.dense_output')

    for n, later in ((1, 0), (2, 0), (2, 1)):
        c.ob(f'dense/{n} steps, the last shortened/{later} later', 'linear interpolation over a shortened last step', dense(n, later, True), UT + 'Euler.dense_output')

    def early():
        d, e, ys = make(t0 + h, h)
        c.raises(w.method(e, 'dense_output'), ['AssertionError'], 'dense_output before the first step')
    c.ob('dense/early', 'dense output before the first step is refused', early, UT + 'Euler.dense_output')

    def kept():
        # the derivative function may return an array it keeps
        w.fresh()
        k = [tm.sym(f'k{i}') for i in range(N)]
        arr = w.arr(k)
        e = c.returns(w.call(c.api(UT + 'Euler'), VBuiltin('der', lambda i, a, kw: arr), num(t0), w.arr(y0), num(t0 + 3 * h), step=num(h)), 'Euler(...)')
        w.assume(tm.lt0(T(F('1e-9')) - h))
        for n in range(1, 4):
            c.returns(w.method(e, 'step'), 'step()', w.it.st.pc)
            y = now(e)[1]
            for i in range(N):
                c.eq(y[i], y0[i] + n * h * k[i], f'state after {n} steps with a derivative function that returns an array it keeps', assume=w.it.st.pc)
                c.eq(w.cells(arr)[i], k[i], 'array kept by the derivative function', assume=w.it.st.pc)
    c.ob('kept', 'the array the derivative function returns is not modified', kept, UT + 'Euler.step')

    def bad(kw, what):
        def r():
            w.fresh()
            d = Deriv(c, N)
            c.raises(w.call(c.api(UT + 'Euler'), d.fn, num(kw['t0']), w.arr(y0), num(kw['t1']), **({'step': num(kw['h'])} if 'h' in kw else {})), ['AssertionError', 'ValueError'], what)
        return r
    c.ob('refuse/zero step', 'a step that is not positive is refused', bad({'t0': t0, 't1': t0 + 1, 'h': T(0)}, 'zero step'), UT + 'Euler.__init__')
    c.ob('refuse/default step', 'a missing step is refused', bad({'t0': t0, 't1': t0 + 1}, 'no step'), UT + 'Euler.__init__')
    c.ob('refuse/negative step', 'a step that is not positive is refused', bad({'t0': t0, 't1': t0 + 1, 'h': -h}, 'negative step'), UT + 'Euler.__init__')
    c.ob('refuse/end', 'an end that is not after the start is refused', bad({'t0': t0, 't1': t0 - span, 'h': h}, 'end before start'), UT + 'Euler.__init__')
    c.ob('refuse/empty', 'an empty interval is refused', bad({'t0': t0, 't1': t0, 'h': h}, 'end equal to start'), UT + 'Euler.__init__')

    def two():
        w.fresh()
        d = Deriv(c, N)
        ys = w.arr(y0)
        mk = lambda: c.returns(w.call(c.api(UT + 'Euler'), d.fn, num(t0), ys, num(t0 + 10 * h), step=num(h)), 'Euler')
        a, b = mk(), mk()
        c.returns(w.method(a, 'step'), 'step()')
        t, y = now(b)
        c.eq(t, t0, 'time of another integrator')
        for p, q in zip(y, y0):
            c.eq(p, q, 'state of another integrator')
    c.ob('separate', 'integrators do not share state', two, UT + 'Euler.__init__')


# ---------------------------------------------------------------------- P35
NAMES = ['vt', 'alpha', 'beta', 'phi', 'theta', 'psi', 'P', 'Q', 'R', 'pos_n', 'pos_e', 'alt', 'pow']
INDEX = {'VT': 0, 'VEL': 0, 'ALPHA': 1, 'BETA': 2, 'PHI': 3, 'THETA': 4, 'PSI': 5, 'P': 6, 'Q': 7, 'R': 8, 'POSN': 9, 'POS_N': 9, 'POSE': 10, 'POS_E': 10,
         'ALT': 11, 'H': 11, 'POW': 12}


def p35(c):
    w = c.world()
    it = w.it

    # ---- frozen objects
    def freezable(path, mk, known):
        def r():
            w.fresh()
            o = mk()
            new = w.do(lambda: it.setattr(o, 'brand_new', num(T(1))))
            c.raises(new, ['TypeError', 'AttributeError'], f'{path}: new attribute on a frozen object')
            got = w.attr(o, 'brand_new')
            c.raises(got, ['AttributeError'], f'{path}: refused attribute read back')
            for n in known:
                t = tm.sym('val_' + n)
                c.returns(w.do(lambda: it.setattr(o, n, num(t))), f'{path}: write to existing attribute {n}')
                c.eq(vcells(c, o, n)[0], t, f'{path}.{n} after the write')
        return r
    lim = ['ThrottleMax', 'ThrottleMin', 'ElevatorMaxDeg', 'ElevatorMinDeg', 'AileronMaxDeg', 'AileronMinDeg', 'RudderMaxDeg', 'RudderMinDeg', 'NzMax', 'NzMin']
    LLP = 'external.aerobench.lowlevel.low_level_controller.'
    for path, mk, known in (
            (LLP + 'CtrlLimits', lambda: c.returns(w.call(c.api(LLP + 'CtrlLimits')), 'CtrlLimits()'), lim),
            (LLP + 'LowLevelController', lambda: controller(c), ['xequil', 'uequil']),
            (UT + 'SafetyLimits', lambda: c.returns(w.call(c.api(UT + 'SafetyLimits')), 'SafetyLimits()'), [n for n, _, _ in LIMS]),
            (UT + 'Euler', lambda: c.returns(w.call(c.api(UT + 'Euler'), Deriv(c, 1).fn, num(T(0)), w.arr(syms(1, 'y')), num(T(1)), step=num(F(1, 4))), 'Euler'),
             ['t', 'tend', 'tstep', 'time_tol'])):
        c.ob(f'frozen/{path.split(".")[-1]}', 'a frozen object refuses new attributes and accepts writes to existing ones', freezable(path, mk, known), path)

    def thaw():
        w.fresh()
        o = c.returns(w.call(c.api(UT + 'Freezable')), 'Freezable()')
        p = c.returns(w.call(c.api(UT + 'Freezable')), 'Freezable()')
        a, b = tm.sym('a'), tm.sym('b')
        c.returns(w.do(lambda: it.setattr(o, 'early', num(a))), 'attribute before freezing')
        c.returns(w.method(o, 'freeze_attrs'), 'freeze_attrs()')
        c.eq(vcells(c, o, 'early')[0], a, 'attribute after freezing')
        c.returns(w.do(lambda: it.setattr(o, 'early', num(b))), 'write after freezing')
        c.eq(vcells(c, o, 'early')[0], b, 'attribute written after freezing')
        c.raises(w.do(lambda: it.setattr(o, 'late', num(a))), ['TypeError', 'AttributeError'], 'new attribute after freezing')
        c.returns(w.do(lambda: it.setattr(p, 'other', num(a))), 'attribute on another, unfrozen object')
        # attributes that exist on the class count as existing
        cls = VClass('Configured', [c.api(UT + 'Freezable')], nmethods={'shared': num(T(1))})
        q = c.returns(w.call(cls), 'an object of a subclass')
        c.returns(w.method(q, 'freeze_attrs'), 'freeze_attrs()')
        c.returns(w.do(lambda: it.setattr(q, 'shared', num(b))), 'write to an attribute defined by the class')
        c.eq(vcells(c, q, 'shared')[0], b, 'attribute defined by the class after the write')
        c.raises(w.do(lambda: it.setattr(q, 'unshared', num(a))), ['TypeError', 'AttributeError'], 'new attribute of the subclass')
    c.ob('frozen/Freezable', 'freezing is per object and starts when asked for', thaw, UT + 'Freezable')

    # ---- multi-aircraft results
    KEYS = ['xd_list', 'ps_list', 'Nz_list', 'Ny_r_list', 'u_list']

    def multi(count, ticks, extended):
        width = 16
        st = [[tm.sym(f's{i}_{j}') for j in range(width * count)] for i in range(ticks)]
        pairs = [('status', 'finished'), ('times', w.list([num(tm.sym(f'time{i}')) for i in range(ticks)])),
                 ('modes', w.list([num(tm.sym(f'mode{i}')) for i in range(ticks)])), ('states', w.arr([x for r in st for x in r], (ticks, width * count)))]
        if extended:
            for k in KEYS:
                pairs.append((k, w.list([VTuple([num(tm.sym(f'{k}{i}_{a}')) for a in range(count)]) for i in range(ticks)])))
        return it.mkdict(pairs), st

    def extract(count, index, ticks, extended):
        def r():
            w.fresh()
            res, st = multi(count, ticks, extended)
            out = it.res(c.returns(w.call(c.api(UT + 'extract_single_result'), res, VNum(T(index), 'int'), controller(c)), 'extract_single_result'))
            get = lambda k: it.res(c.returns(w.do(lambda: it.getitem(out, k)), f'result[{k!r}]'))
            c.sure(get('status') == 'finished', 'status is shared')
            for k, pre in (('times', 'time'), ('modes', 'mode')):
                v = cells(c, get(k), k)
                c.sure(len(v) == ticks, f'{k} has {len(v)} entries for {ticks} ticks')
                for i, t in enumerate(v):
                    c.eq(t, tm.sym(f'{pre}{i}'), f'{k}[{i}]')
            s = get('states')
            c.sure(isinstance(s, VArr) and tuple(s.shape) == (ticks, 16), 'states of one aircraft: one row of 16 per tick')
            for n, t in enumerate(w.cells(s)):
                i, j = divmod(n, 16)
                c.eq(t, st[i][16 * index + j], f'states[{i}][{j}] of aircraft {index} of {count}')
            if extended:
                for k in KEYS:
                    v = cells(c, get(k), k)
                    c.sure(len(v) == ticks, f'{k} has {len(v)} entries for {ticks} ticks')
                    for i, t in enumerate(v):
                        c.eq(t, tm.sym(f'{k}{i}_{index}'), f'{k}[{i}] of aircraft {index} of {count}')
        return r
    for count in (2, 3, 4):
        for index in range(count):
            for ticks in (1, 2, 3):
                for ext in (False, True):
                    c.ob(f'extract/{index} of {count}/{ticks} ticks/{"extended" if ext else "plain"}', 'exactly that aircraft\'s columns and lists, shared times, modes and status',
                         extract(count, index, ticks, ext), UT + 'extract_single_result')

    def single():
        w.fresh()
        res, st = multi(1, 2, False)
        out = it.res(c.returns(w.call(c.api(UT + 'extract_single_result'), res, VNum(T(0), 'int'), controller(c)), 'extract_single_result'))
        s = w.cells(it.res(it.getitem(out, 'states')))
        for n, t in enumerate(s):
            c.eq(t, st[n // 16][n % 16], 'states of the only aircraft')
        w.fresh()
        res, st = multi(1, 2, False)
        for bad in (1, 2, -1):
            c.raises(w.call(c.api(UT + 'extract_single_result'), res, VNum(T(bad), 'int'), controller(c)), ['AssertionError', 'IndexError', 'ValueError'], f'aircraft {bad} of 1')
    c.ob('extract/single', 'a single-aircraft result is returned whole; other indices are refused', single, UT + 'extract_single_result')

    # ---- numbers
    def call(n, t, kind='float'):
        w.fresh()
        v = c.returns(w.call(c.api(UT + n), VNum(T(t), kind)), f'{n}(...)')
        return v, cells(c, v, n)[0]
    x = tm.sym('x')

    def sign():
        for lab, t, r in (('negative', tm.bounded('neg', None, 0, False, True), -1), ('zero', T(0), 0), ('positive', tm.bounded('posv', 0, None, True, False), 1)):
            for kind in ('float', 'int') if t.const() is not None else ('float',):
                c.eq(call('sign', t, kind)[1], r, f'sign of a {lab} number')
    c.ob('sign', 'minus one, zero or one', sign, UT + 'sign')

    for j in range(0, 6):
        def fixed(j=j):
            frac = tm.bounded('fraction', 0, 1, False, True)
            c.eq(call('fix', j + frac)[1], j, f'fix on [{j}, {j + 1})')
            c.eq(call('fix', -j - frac)[1], -j, f'fix on (-{j + 1}, -{j}]')
        c.ob(f'fix/cell {j}', 'rounds toward zero', fixed, UT + 'fix')

    def fixpoints():
        for j in range(0, 12):
            for q, r in ((T(j), 'a whole number'), (j + F(1, 2), 'a half'), (j + F(999999999, 1000000000), 'just below a whole number'), (j + F(1, 1000000000), 'just above a whole number')):
                c.eq(call('fix', T(q))[1], j, f'fix of {r} near {j}')
                c.eq(call('fix', -T(q))[1], -j, f'fix of {r} near -{j}')
    c.ob('fix/points', 'rounds toward zero at and next to whole numbers and halves', fixpoints, UT + 'fix')

    def fixint():
        v, t = call('fix', x)
        c.sure(isinstance(it.res(v), VNum) and it.res(v).k == 'int', 'fix returns an integer')
    c.ob('fix/integer', 'an integer', fixint, UT + 'fix')

    def fixgen():
        big = tm.sym('mag', 'nonneg')
        t = call('fix', big)[1]
        c.le(t, big, 'fix of a non-negative number does not exceed it')
        c.le(big, t + 1, 'fix of a non-negative number is less than one below it', strict=True)
        c.le(0, t, 'fix of a non-negative number is not negative')
        s = call('fix', -big)[1]
        c.eq(s, -t, 'fix is odd')
    c.ob('fix/every number', 'nearest integer toward zero for every number', fixgen, UT + 'fix')

    def names():
        w.fresh()
        v = [it.res(s) for s in it.iterate(c.returns(w.call(c.api(UT + 'get_state_names')), 'get_state_names()'))]
        c.sure(v == NAMES, f'state names {v}')
        cls = c.api(UT + 'StateIndex')
        for n, k in INDEX.items():
            c.eq(vcells(c, cls, n)[0], k, f'StateIndex.{n}')
    c.ob('names', 'state names and indices agree with the plant\'s state order', names, UT + 'StateIndex')

    # ---- printed matrices
    PM = UT + 'printmat'

    def printed():
        """the text printed so far; a number stands as (term, field width)"""
        out = []
        for e in it.log:
            if e['kind'] != 'print':
                continue
            c.sure(e['pc'] is tm.TRUE and e['file'] is None and isinstance(e['sep'], str) and isinstance(e['end'], str), 'printed unconditionally to the standard output')
            for n, a in enumerate(e['what']):
                out += [e['sep']] if n else []
                if isinstance(a, str):
                    out.append(a)
                elif isinstance(a, VOpaque) and a.parts:
                    out += a.parts
                else:
                    raise Unsupported('print of something other than text')
            out.append(e['end'])
        r = ['']
        for x in out:
            if isinstance(x, str):
                r[-1] += x
            else:
                m = re.fullmatch(r' ?>? ?(\d+)(?:\.\d+)?[gfe]?', x[1])
                if not m:
                    raise Unsupported(f'number format {x[1]!r}')
                r += [(x[0].t, int(m.group(1))), '']
        return r

    def table(rows, cols, rl, cl, flat=False, aslist=False):
        def r():
            w.fresh()
            s = [tm.sym(f'm{i}_{j}') for i in range(rows) for j in range(cols)]
            m = w.arr(s) if flat else w.arr(s, (rows, cols))
            if aslist:
                m = w.list([w.list([num(x) for x in s[i * cols:(i + 1) * cols]]) for i in range(rows)])
            lab = ' '.join(rl) if rl else w.list([]) if rl == [] else None
            it.log.clear()
            c.returns(w.call(c.api(PM), m, 'The matrix', lab, ' '.join(cl)), 'printmat(...)')
            got = printed()
            wd = max([7] + [len(x) for x in cl + (rl or [])]) + 1
            exp = ['The matrix =\n' + (' ' * wd if rl else '') + ''.join(x.rjust(wd) for x in cl) + '\n']
            for i in range(rows):
                exp[-1] += rl[i].ljust(wd) if rl else ''
                for j in range(cols):
                    exp += [(s[i * cols + j], wd), '']
                exp[-1] += '\n'
            c.sure(len(got) == len(exp), f'{len(got) // 2} numbers printed for a matrix of {rows * cols}')
            for g, x in zip(got, exp):
                if isinstance(x, str):
                    c.sure(g == x, f'printed text {g!r}, required {x!r}')
                else:
                    c.eq(g[0], x[0], 'printed number')
                    c.sure(g[1] == x[1], f'number printed {g[1]} wide in a column of width {x[1]}')
            if not aslist:
                c.sure(tuple(m.shape) == ((cols,) if flat else (rows, cols)), "the caller's matrix keeps its shape")
        return r
    R2 = ['first', 'a-very-long-row-label']
    for name, a in {'rows': (2, 3, ['r1', 'r2'], ['a', 'b', 'c']), 'no rows': (2, 2, None, ['a', 'b']), 'empty row labels': (1, 2, [], ['a', 'b']),
                    'long row label': (2, 2, R2, ['x', 'y']), 'long column label': (2, 2, ['r', 's'], ['x', 'column-of-some-width']), 'vector': (1, 3, None, ['a', 'b', 'c'], True),
                    'vector with a label': (1, 2, ['only'], ['a', 'b'], True), 'lists': (2, 2, ['r', 's'], ['a', 'b'], False, True)}.items():
        c.ob(f'printmat/{name}', 'the label, the column labels and every row with its label, in columns of one width', table(*a), PM)

    def mislabelled():
        for rl in ('a', 'a b c'):
            w.fresh()
            c.raises(w.call(c.api(PM), w.arr(syms(4, 'm'), (2, 2)), 'M', rl, 'x y'), ['AssertionError'], f'row labels {rl!r} for two rows')
        for a in ((None, 'a b', 'x y'), ('M', num(T(1)), 'x y'), ('M', 'a b', None)):
            w.fresh()
            c.raises(w.call(c.api(PM), w.arr(syms(4, 'm'), (2, 2)), *a), ['AssertionError', 'TypeError', 'AttributeError'], f'labels {a!r}')
    c.ob('printmat/mislabelled', 'a wrong number of row labels and labels that are no text are refused', mislabelled, PM)
