"""More of the numpy / jax.numpy namespace (array rearrangement, searching, sorting, grids)."""
from __future__ import annotations

import itertools
from fractions import Fraction

from . import terms as tm
from . import npmodel as nm
from .npmodel import as_term, as_cond
from .terms import T, TRUE, FALSE, c_and, c_not
from .values import *


def install(lib):
    from .npfuncs import arg, ints, truthy, tracked
    it, ns, xp, fn = lib.it, lib.ns, lib.xp, lib.fn

    def n_(v, what='a symbolic integer'):
        n = const_int(it.res(v))
        if n is None:
            raise Unsupported(what, it.where())
        return n

    def I(i):
        return VNum(T(i), 'int')

    def ax_(v, nd):
        n = n_(v)
        if not -nd <= n < nd:
            it.raise_('ValueError', f'axis {n} is out of bounds for array of dimension {nd}')
        return n % nd

    def decided(c):
        d = it.decide(as_cond(c))
        if d is not TRUE and d is not FALSE:
            raise Unsupported('data-dependent array shape', it.where())
        return d is TRUE

    def mk(cells, shape, dt):
        return it.mkarr(cells, tuple(shape), dt, lib.jx)

    def along(o, ax, f):
        """apply f: cells -> cells along an axis of the operand o"""
        st, s = [], 1
        for d in reversed(o.shape):
            st.insert(0, s)
            s *= d
        oth = [range(d) for i, d in enumerate(o.shape) if i != ax]
        ost = [x for i, x in enumerate(st) if i != ax]
        rows = []
        for ix in itertools.product(*oth):
            base = sum(p * q for p, q in zip(ix, ost))
            rows.append(f([o.c[base + k * st[ax]] for k in range(o.shape[ax])]))
        m = len(rows[0]) if rows else 0
        osh = [d for i, d in enumerate(o.shape) if i != ax]
        sh = osh[:ax] + [m] + osh[ax:]
        out = []
        for ix in itertools.product(*[range(d) for d in sh]):
            k = 0
            for i, d in zip([x for j, x in enumerate(ix) if j != ax], osh):
                k = k * d + i
            out.append(rows[k][ix[ax]])
        return out, sh

    def flipax(v, axes):
        key = [VSlice(None, None, I(-1)) if i in axes else VSlice(None, None, None) for i in range(v.ndim)]
        return nm.getitem(it, v, VTuple(key) if len(key) > 1 else key[0])

    @fn('flip')
    def flip(a, k):
        v = lib.arr(a[0])
        ax = it.res(arg(a, k, 1, 'axis'))
        axes = range(v.ndim) if ax is None else [x % v.ndim for x in ints(it, ax)]
        return flipax(v, set(axes))
    fn('flipud')(lambda a, k: flipax(lib.arr(a[0]), {0}))
    fn('fliplr')(lambda a, k: flipax(lib.arr(a[0]), {1}))

    @fn('diagonal')
    def diagonal(a, k):
        return it.call(ns['diag'], [a[0]] + ([arg(a, k, 1, 'offset')] if len(a) > 1 or 'offset' in k else []), {})

    @fn('kron')
    def kron(a, k):
        p, q = nm.opnd_t(it, a[0]), nm.opnd_t(it, a[1])
        nd = max(len(p.shape), len(q.shape))
        ps, qs = (1,) * (nd - len(p.shape)) + p.shape, (1,) * (nd - len(q.shape)) + q.shape
        sh = [x * y for x, y in zip(ps, qs)]
        out = []
        for ix in itertools.product(*[range(d) for d in sh]):
            i = j = 0
            for x, dp, dq in zip(ix, ps, qs):
                i, j = i * dp + x // dq, j * dq + x % dq
            out.append(nm.tmul(p.c[i], q.c[j]))
        return mk(out, sh, nm.promote([p, q]))

    @fn('tensordot')
    def tensordot(a, k):
        if n_(arg(a, k, 2, 'axes', I(2)), 'tensordot axes') != 1:
            raise Unsupported('tensordot axes', it.where())
        return nm.dot(it, a[0], a[1], xp)

    @fn('swapaxes')
    def swapaxes(a, k):
        v = lib.arr(a[0])
        p = list(range(v.ndim))
        i, j = ax_(a[1], v.ndim), ax_(a[2], v.ndim)
        p[i], p[j] = p[j], p[i]
        return nm.transpose(it, v, p)

    @fn('moveaxis')
    def moveaxis(a, k):
        v = lib.arr(a[0])
        i, j = ax_(a[1], v.ndim), ax_(a[2], v.ndim)
        p = [x for x in range(v.ndim) if x != i]
        p.insert(j, i)
        return nm.transpose(it, v, p)

    @fn('transpose')
    def transpose(a, k):
        axes = it.res(arg(a, k, 1, 'axes'))
        v = lib.arr(a[0])
        return nm.transpose(it, v, None if axes is None else [x % v.ndim for x in ints(it, axes)])

    # ---- searching
    def hits(v):
        o = nm.opnd_t(it, v)
        cs = [c if o.dt == 'bool' else c_not(tm.eq0(as_term(c))) for c in o.c]
        return o, [ix for ix, c in zip(itertools.product(*[range(d) for d in o.shape]), cs) if decided(c)]

    @fn('nonzero')
    def nonzero(a, k):
        o, h = hits(a[0])
        return VTuple([mk([T(x[i]) for x in h], (len(h),), 'int64') for i in range(max(1, len(o.shape)))])

    @fn('flatnonzero')
    def flatnonzero(a, k):
        return it.res(nonzero([lib.ravel(a[0])], k).items[0])

    @fn('argwhere')
    def argwhere(a, k):
        o, h = hits(a[0])
        return mk([T(i) for x in h for i in x], (len(h), len(o.shape)), 'int64')
    where3 = ns['where']
    ns['where'] = VBuiltin(f'{xp}.where', lambda i, a, k: nonzero(a, k) if len(a) == 1 and not k else where3.fn(i, a, k))

    def sorted_cells(cs):
        """bubble network of minima and maxima"""
        cs = [as_term(c) for c in cs]
        if all(c.const() is not None for c in cs):
            return sorted(cs, key=lambda c: c.const())
        if len(cs) > 8:
            raise Unsupported('sort of a long symbolic array', it.where())
        for i in range(len(cs)):
            for j in range(len(cs) - 1 - i):
                cs[j], cs[j + 1] = nm.tmin(cs[j], cs[j + 1]), nm.tmax(cs[j], cs[j + 1])
        return cs

    def order(cs):
        cs = [as_term(c) for c in cs]

        def before(x, y):
            return decided(tm.lt0(x - y))
        idx = []
        for i, c in enumerate(cs):
            p = len(idx)
            while p and before(c, cs[idx[p - 1]]):
                p -= 1
            idx.insert(p, i)
        return [T(i) for i in idx]

    def axised(f, dt=None):
        def g(a, k):
            o = nm.opnd_t(it, a[0])
            ax = it.res(arg(a, k, 1, 'axis', I(-1)))
            k.get('kind')
            if ax is None:
                o = nm.opnd_t(it, lib.ravel(a[0]))
                ax = I(0)
            cells, sh = along(o, ax_(ax, len(o.shape)), f)
            return mk(cells, sh, dt or o.dt)
        return g
    fn('sort')(axised(sorted_cells))
    fn('argsort')(axised(order, 'int64'))

    @fn('unique')
    def unique(a, k):
        o = nm.opnd_t(it, a[0])
        cs = [as_term(c).const() for c in o.c]
        if any(c is None for c in cs):
            raise Unsupported('unique of symbolic values', it.where())
        u = sorted(set(cs))
        return mk([nm.cast(T(c), o.dt) for c in u], (len(u),), o.dt)

    def count(knots, right):
        def f(x):
            x = as_term(x)
            r = tm.ZERO
            for q in knots:
                c = c_not(tm.lt0(x - q)) if right else tm.lt0(q - x)
                r = r + tm.ite(c, tm.ONE, tm.ZERO)
            return r
        return f

    @fn('searchsorted')
    def searchsorted(a, k):
        o = nm.opnd_t(it, a[0])
        side = it.res(arg(a, k, 2, 'side', 'left'))
        return nm.ew(it, count([as_term(c) for c in o.c], side == 'right'), [a[1]], 'int64', xp)

    @fn('digitize')
    def digitize(a, k):
        b = [as_term(c) for c in nm.opnd_t(it, arg(a, k, 1, 'bins')).c]
        right = truthy(it, arg(a, k, 2, 'right'))
        up = all(decided(tm.lt0(x - y)) for x, y in zip(b, b[1:]))
        if not up:
            raise Unsupported('digitize with decreasing bins', it.where())
        return nm.ew(it, count(b, not right), [a[0]], 'int64', xp)

    def isin(a, k):
        o = nm.opnd_t(it, a[1])
        return nm.ew(it, lambda x: tm.c_or(*[nm.eq(x, y) for y in o.c]) if o.c else FALSE, [a[0]], 'bool', xp)
    fn('isin', 'in1d')(isin)

    @fn('array_equiv')
    def array_equiv(a, k):
        return it.call(ns['all'], [it.compare('Eq', lib.arr(a[0]), a[1])], {})

    @fn('ptp')
    def ptp(a, k):
        ax = it.res(arg(a, k, 1, 'axis'))
        kw = {} if ax is None else {'axis': ax}
        return it.binop('Sub', it.call(ns['max'], [a[0]], kw), it.call(ns['min'], [a[0]], dict(kw)))

    @fn('take')
    def take(a, k):
        v = lib.arr(a[0])
        ax = it.res(arg(a, k, 2, 'axis'))
        ix = it.res(arg(a, k, 1, 'indices'))
        if arg(a, k, 3, 'out') is not None or arg(a, k, 4, 'mode') is not None:
            raise Unsupported('take with out or mode', it.where())
        if isinstance(ix, (VTuple, VRef)):
            ix = lib.arr(ix)
        if isinstance(ix, VArr) and ix.dt == 'bool' or isinstance(ix, VBool):
            raise Unsupported('take with conditions', it.where())
        if ax is None:
            return nm.getitem(it, lib.ravel(v), ix)
        ax = ax_(ax, v.ndim)
        if isinstance(ix, VArr) and ix.ndim != 1:
            raise Unsupported('take of an index array along an axis', it.where())
        if isinstance(ix, VNum):
            key = [VSlice(None, None, None)] * ax + [ix]
            r = nm.getitem(it, v, VTuple(key))
            return it.mkarr(it.cells(r), r.shape, r.dt, r.jx) if isinstance(r, VArr) else r
        ps = ints(it, ix)
        cells, sh = along(nm.opnd_t(it, v), ax, lambda cs: [cs[p] if -len(cs) <= p < len(cs) else it.raise_('IndexError', 'out of bounds') for p in ps])
        return mk(cells, sh, v.dt)

    @fn('compress')
    def compress(a, k):
        c = nm.opnd_t(it, a[0])
        keep = [i for i, x in enumerate(c.c) if decided(x)]
        v = lib.arr(a[1])
        if it.res(arg(a, k, 2, 'axis')) is None:
            v = lib.ravel(v)
        elif ax_(k['axis'] if 'axis' in k else a[2], v.ndim) != 0:
            raise Unsupported('compress along an axis', it.where())
        return nm.getitem(it, v, it.mklist([I(i) for i in keep]))
    fn('extract')(lambda a, k: compress([lib.ravel(a[0]), lib.ravel(a[1])], k))

    @fn('divmod')
    def divmod_(a, k):
        return VTuple([it.binop('FloorDiv', a[0], a[1]), it.binop('Mod', a[0], a[1])])

    @fn('modf')
    def modf(a, k):
        w = it.call(ns['trunc'], [a[0]], {})
        return VTuple([it.binop('Sub', a[0], w), w])

    def grid(pairs):
        return VTuple([it.mkarr([T(p[j]) for p in pairs], (len(pairs),), 'int64') for j in range(2)])

    @fn('diag_indices')
    def diag_indices(a, k):
        n = const_int(it.res(a[0]))
        d = const_int(it.res(arg(a, k, 1, 'ndim', I(2))))
        return VTuple([it.mkarr([T(i) for i in range(n)], (n,), 'int64') for _ in range(d)])

    def tri_indices(up):
        def f(a, k):
            n = const_int(it.res(a[0]))
            o = const_int(it.res(arg(a, k, 1, 'k', I(0))))
            m = it.res(arg(a, k, 2, 'm', None))
            m = n if m is None else const_int(m)
            if n is None or o is None or m is None:
                raise Unsupported('symbolic size', it.where())
            return grid([(i, j) for i in range(n) for j in range(m) if (j - i >= o if up else j - i <= o)])
        return f
    fn('triu_indices')(tri_indices(True))
    fn('tril_indices')(tri_indices(False))

    @fn('ix_')
    def ix_(a, k):
        vs = [nm.opnd_t(it, x) for x in a]
        return VTuple([mk(o.c, tuple(len(o.c) if j == i else 1 for j in range(len(vs))), o.dt) for i, o in enumerate(vs)])

    @fn('fromiter')
    def fromiter(a, k):
        d = nm.dtype_name(it, arg(a, k, 1, 'dtype'))
        if arg(a, k, 2, 'count') is not None:
            raise Unsupported('fromiter with count', it.where())
        cs = [as_term(nm.opnd_t(it, x).c[0]) for x in it.iterate(a[0])]
        return mk([nm.cast(c, d) for c in cs], (len(cs),), d)

    @fn('meshgrid')
    def meshgrid(a, k):
        vs = [nm.opnd_t(it, lib.ravel(x)) for x in a]
        if len(vs) != 2:
            raise Unsupported('meshgrid', it.where())
        ij = it.res(k.get('indexing', 'xy')) == 'ij'
        x, y = vs
        m, n = len(x.c), len(y.c)
        sh = (m, n) if ij else (n, m)
        return it.mklist([mk([x.c[i if ij else j] for i in range(sh[0]) for j in range(sh[1])], sh, x.dt),
                          mk([y.c[j if ij else i] for i in range(sh[0]) for j in range(sh[1])], sh, y.dt)])

    @fn('tri')
    def tri(a, k):
        n = n_(a[0])
        m = n_(arg(a, k, 1, 'M', I(n)))
        kk = n_(arg(a, k, 2, 'k', I(0)))
        return mk([tm.ONE if j <= i + kk else tm.ZERO for i in range(n) for j in range(m)], (n, m), 'float64')

    @fn('median')
    def median(a, k):
        def f(cs):
            s = sorted_cells(cs)
            n = len(s)
            return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / T(2)
        return nm.reduce_axis(it, a[0], arg(a, k, 1, 'axis'), f, 'float64', xp=xp)

    def dropnan(f):
        def g(cs):
            kept = [c for c in cs if not tm.has_nan(as_term(c))]
            return f(kept) if kept else tm.NAN
        return g
    for name, f in (('nanmax', nm.fmax), ('nanmin', nm.fmin), ('nanmean', lambda cs: nm.fsum(cs) / T(len(cs))), ('nanprod', nm.fprod)):
        fn(name)(lambda a, k, f=f: nm.reduce_axis(it, a[0], arg(a, k, 1, 'axis'), dropnan(f), xp=xp))

    @fn('average')
    def average(a, k):
        w = it.res(arg(a, k, 2, 'weights'))
        ax = arg(a, k, 1, 'axis')
        if w is None:
            return it.call(ns['mean'], [a[0]], {} if ax is None else {'axis': ax})
        p, q = nm.opnd_t(it, a[0]), nm.opnd_t(it, w)
        if p.shape != q.shape or it.res(ax) is not None:
            raise Unsupported('weighted average along an axis', it.where())
        return nm.wrap(it, [nm.fsum([as_term(x) * as_term(y) for x, y in zip(p.c, q.c)]) / nm.fsum(q.c)], (), 'float64', lib.jx, True)

    def cumulate(f):
        def g(a, k):
            o = nm.opnd_t(it, a[0])
            ax = it.res(arg(a, k, 1, 'axis'))
            d = nm.dtype_name(it, k.get('dtype')) or ('int64' if o.dt == 'bool' else o.dt)

            def run(cs):
                out = []
                for c in cs:
                    out.append(as_term(c) if not out else f(out[-1], as_term(c)))
                return out
            if ax is None:
                return mk(run(o.c), (len(o.c),), d)
            cells, sh = along(o, ax_(ax, len(o.shape)), run)
            return mk(cells, sh, d)
        return g
    fn('cumsum')(cumulate(lambda x, y: x + y))
    fn('cumprod')(cumulate(lambda x, y: x * y))
    for u, f in (('add', lambda x, y: x + y), ('multiply', lambda x, y: x * y), ('maximum', nm.tmax), ('minimum', nm.tmin)):
        def acc(i, a, k, g=cumulate(f)):
            return tracked(i, 'accumulate', g, list(a) + ([I(0)] if len(a) == 1 and 'axis' not in k else []), k)
        ns[u].attrs['accumulate'] = VBuiltin(f'{u}.accumulate', acc)

    @fn('diff')
    def diff(a, k):
        n = n_(arg(a, k, 1, 'n', I(1)))
        v = lib.arr(a[0])
        ax = ax_(arg(a, k, 2, 'axis', I(-1)), v.ndim)
        o = nm.opnd_t(it, v)
        for _ in range(n):
            cells, sh = along(o, ax, lambda cs: [as_term(y) - as_term(x) for x, y in zip(cs, cs[1:])])
            o = nm.opnd_t(it, mk(cells, sh, o.dt))
        return mk(o.c, o.shape, o.dt)

    @fn('gradient')
    def gradient(a, k):
        return lib.unsup('gradient')

    @fn('trapz', 'trapezoid')
    def trapz(a, k):
        y = [as_term(c) for c in nm.opnd_t(it, a[0]).c]
        x = it.res(arg(a, k, 1, 'x'))
        dx = as_term(nm.opnd_t(it, arg(a, k, 2, 'dx', I(1))).c[0])
        xs = [dx * T(i) for i in range(len(y))] if x is None else [as_term(c) for c in nm.opnd_t(it, x).c]
        return nm.wrap(it, [nm.fsum([(xs[i + 1] - xs[i]) * (y[i] + y[i + 1]) / T(2) for i in range(len(y) - 1)])], (), 'float64', lib.jx, True)

    @fn('apply_along_axis')
    def apply_along_axis(a, k):
        o = nm.opnd_t(it, a[2])
        ax = ax_(a[1], len(o.shape))
        f = a[0]
        shapes = []

        def g(cs):
            r = nm.opnd_t(it, it.call(f, [mk(cs, (len(cs),), o.dt)] + list(a[3:]), {}))
            shapes.append((r.shape, r.dt))
            return list(r.c)
        cells, sh = along(o, ax, g)
        if any(s != shapes[0] for s in shapes) or len(shapes[0][0]) > 1:
            raise Unsupported('apply_along_axis', it.where())
        if shapes[0][0] == ():
            sh = sh[:ax] + sh[ax + 1:]
        return mk(cells, sh, shapes[0][1])

    @fn('logspace')
    def logspace(a, k):
        lo, hi = (as_term(nm.opnd_t(it, x).c[0]) for x in a[:2])
        n = n_(arg(a, k, 2, 'num', I(50)))
        return mk([tm.fn('pow', T(10), c) for c in nm.linspace_cells(lo, hi, n, truthy(it, arg(a, k, 3, 'endpoint'), True))], (n,), 'float64')

    @fn('geomspace')
    def geomspace(a, k):
        lo, hi = (as_term(nm.opnd_t(it, x).c[0]) for x in a[:2])
        n = n_(arg(a, k, 2, 'num', I(50)))
        return mk([lo * tm.fn('pow', hi / lo, T(Fraction(i, max(n - 1, 1)))) for i in range(n)], (n,), 'float64')

    @fn('piecewise')
    def piecewise(a, k):
        x = a[0]
        conds = it.iterate(a[1]) if not isinstance(it.res(a[1]), VArr) else [nm.getitem(it, it.res(a[1]), I(i)) for i in range(it.res(a[1]).shape[0])]
        fs = [it.res(f) for f in it.iterate(a[2])]
        vals = [it.call(f, [x], {}) if isinstance(f, (VFunc, VBuiltin, VBound)) else f for f in fs]
        o = nm.opnd_t(it, x)
        r = vals[len(conds)] if len(vals) > len(conds) else I(0)
        r = nm.ew(it, lambda c, y: as_term(y), [x, r], o.dt, xp)
        for c, v in zip(conds, vals):
            r = nm.ew(it, lambda c_, y, z: tm.ite(as_cond(c_), as_term(y), as_term(z)), [c, v, r], o.dt, xp)
        return r

    @fn('choose')
    def choose(a, k):
        ch = it.iterate(a[1])
        dt = nm.promote([nm.opnd_t(it, c) for c in ch])

        def f(i, *cs):
            r = as_term(cs[-1])
            for j in range(len(cs) - 2, -1, -1):
                r = tm.ite(tm.eq0(as_term(i) - T(j)), as_term(cs[j]), r)
            return r
        return nm.ew(it, f, [a[0]] + list(ch), dt, xp)

    def parts(a, split):
        v = lib.arr(a[0])
        s = it.res(a[1])
        return v, s

    def cut(a, k, even, axis=None):
        v = lib.arr(a[0])
        s = it.res(a[1])
        ax = ax_(arg(a, k, 2, 'axis', I(0)), v.ndim) if axis is None else (axis if v.ndim > axis else 0)
        n = v.shape[ax]
        if isinstance(s, VNum):
            q = n_(s)
            if n % q and even:
                it.raise_('ValueError', 'array split does not result in an equal division')
            sizes = [n // q + 1] * (n % q) + [n // q] * (q - n % q)
            cuts = list(itertools.accumulate(sizes))[:-1]
        else:
            cuts = ints(it, s)
        b = [0] + cuts + [n]
        full = VSlice(None, None, None)

        def key(x, y):
            s = VSlice(I(x), I(y), None)
            return s if v.ndim == 1 else VTuple([full] * ax + [s])
        return it.mklist([nm.getitem(it, v, key(x, y)) for x, y in zip(b, b[1:])])
    fn('split')(lambda a, k: cut(a, k, True))
    fn('array_split')(lambda a, k: cut(a, k, False))
    fn('hsplit')(lambda a, k: cut(a, k, True, 1))
    fn('vsplit')(lambda a, k: cut(a, k, True, 0))

    @fn('rot90')
    def rot90(a, k):
        return lib.unsup('rot90')

    @fn('dstack')
    def dstack(a, k):
        xs = [nm.opnd_t(it, x) for x in it.iterate(a[0])]
        out = []
        for o in xs:
            n = len(o.shape)
            out.append(mk(list(o.c), (1, o.shape[0] if n else 1, 1) if n < 2 else (o.shape + (1,) if n == 2 else o.shape), o.dt))
        return nm.concat(it, out, 2, xp)

    @fn('fromfunction')
    def fromfunction(a, k):
        sh = lib.dims(a[1])
        d = nm.dtype_name(it, k['dtype']) if k.get('dtype') is not None else 'float64'
        grids = []
        for ax in range(len(sh)):
            cells = [nm.cast(T(ix[ax]), d) for ix in itertools.product(*[range(n) for n in sh])]
            grids.append(mk(cells, sh, d))
        return it.call(a[0], grids, {})

    @fn('ndindex')
    def ndindex(a, k):
        sh = lib.dims(a[0]) if len(a) == 1 else tuple(n_(x) for x in a)
        return it.mklist([VTuple([I(i) for i in ix]) for ix in itertools.product(*[range(n) for n in sh])])

    @fn('pad')
    def pad(a, k):
        o = nm.opnd_t(it, a[0])
        mode = it.res(arg(a, k, 2, 'mode', 'constant'))
        if mode not in ('constant', 'edge'):
            return lib.unsup(f'pad mode {mode!r}')
        fill = k.get('constant_values')
        fill = tm.ZERO if fill is None else nm.opnd_t(it, fill).c
        if isinstance(fill, (list, tuple)):
            if len(fill) != 1:
                return lib.unsup('pad with several values')
            fill = fill[0]
        w = nm.opnd_t(it, a[1])
        ws = [const_int(VNum(as_term(c), 'int')) for c in w.c]
        if any(x is None for x in ws):
            return lib.unsup('pad by an unknown width')
        if any(x < 0 for x in ws):
            it.raise_('ValueError', "index can't contain negative values")
        n = len(o.shape)
        if len(ws) == 1:
            ws = ws * (2 * n)
        elif len(ws) == 2 and w.shape != (n, 1):
            ws = ws * n
        elif w.shape == (n, 1):
            ws = [x for x in ws for _ in range(2)]
        if len(ws) != 2 * n:
            it.raise_('ValueError', 'operands could not be broadcast together')
        cells, sh = list(o.c), o.shape
        for ax in range(n):
            def f(cs, b=ws[2 * ax], e=ws[2 * ax + 1]):
                if mode == 'edge':
                    return [cs[0]] * b + list(cs) + [cs[-1]] * e
                return [fill] * b + list(cs) + [fill] * e
            cells, sh = along(nm.Opnd(cells, sh, o.dt), ax, f)
        return mk(cells, sh, o.dt)

    @fn('repeat')
    def repeat(a, k):
        o = nm.opnd_t(it, a[0])
        ax = it.res(arg(a, k, 2, 'axis'))
        r = ints(it, a[1])
        if ax is None:
            o = nm.opnd_t(it, lib.ravel(a[0]))
            ax = I(0)

        def f(cs):
            rr = r * len(cs) if len(r) == 1 else r
            return [c for c, m in zip(cs, rr) for _ in range(m)]
        cells, sh = along(o, ax_(ax, len(o.shape)), f)
        return mk(cells, sh, o.dt)

    @fn('roll')
    def roll(a, k):
        o = nm.opnd_t(it, a[0])
        ax = it.res(arg(a, k, 2, 'axis'))
        n = n_(a[1])
        f = lambda cs: cs[-(n % len(cs)):] + cs[:-(n % len(cs))] if cs and n % len(cs) else list(cs)
        if ax is None:
            return mk(f(list(o.c)), o.shape, o.dt)
        cells, sh = along(o, ax_(ax, len(o.shape)), f)
        return mk(cells, sh, o.dt)

    @fn('delete')
    def delete(a, k):
        o = nm.opnd_t(it, a[0])
        ax = it.res(arg(a, k, 2, 'axis'))
        if ax is None:
            o = nm.opnd_t(it, lib.ravel(a[0]))
            ax = I(0)
        ax = ax_(ax, len(o.shape))
        n = o.shape[ax]
        s = it.res(a[1])
        ps = list(nm.slice_range(it, s, n)) if isinstance(s, VSlice) else ints(it, s)
        if any(not -n <= p < n for p in ps):
            it.raise_('IndexError', 'index out of bounds')
        ps = {p % n for p in ps}
        cells, sh = along(o, ax, lambda cs: [c for i, c in enumerate(cs) if i not in ps])
        return mk(cells, sh, o.dt)

    @fn('nan_to_num')
    def nan_to_num(a, k):
        z = as_term(nm.opnd_t(it, arg(a, k, 2, 'nan', I(0))).c[0])
        return nm.ew(it, lambda x: z if tm.has_nan(as_term(x)) else as_term(x), a[:1], None, xp)

    class Grid:
        pass
    ns['r_'] = VNative('r_', lib=lib)
    ns['c_'] = VNative('c_', lib=lib)
    ns['s_'] = VNative('sctor')
    ns['index_exp'] = VNative('sctor')

    def dist(name, f):
        fn(name)(lambda a, k: f(a, k))
    fn('sinc')(lambda a, k: nm.ew(it, lambda x: tm.ite(tm.eq0(as_term(x)), tm.ONE, tm.fn('sin', tm.PI * as_term(x)) / (tm.PI * as_term(x))), a[:1], 'float64', xp))
    fn('ediff1d')(lambda a, k: diff([lib.ravel(a[0])], k))
    fn('vander')(lambda a, k: lib.unsup('vander'))
    fn('column_stack')(lambda a, k: lib.column_stack(it.iterate(a[0])))
    fn('dstack')(lambda a, k: lib.unsup('dstack'))
    fn('copysign')(lambda a, k: nm.ew(it, lambda x, y: tm.ite(tm.lt0(as_term(y)), -tm.absv(as_term(x)), tm.absv(as_term(x))), a[:2], 'float64', xp))
    fn('array_repr', 'array_str', 'array2string')(lambda a, k: (list(a), k.items()) and VOpaque('str'))


def grid_getitem(it, o, key):
    """np.r_[...] and np.c_[...]"""
    lib = o.d['lib']
    items = key.items if isinstance(key, VTuple) else (key,)
    parts = []
    for x in items:
        x = it.res(x)
        if isinstance(x, str):
            raise Unsupported('directive of np.r_', it.where())
        if isinstance(x, VSlice):
            lo, hi, st = (it.res(y) for y in (x.lo, x.hi, x.st))
            x = it.call(lib.ns['arange'], [lo if lo is not None else VNum(T(0), 'int'), hi, st if st is not None else VNum(T(1), 'int')], {})
        parts.append(x)
    if o.kind == 'c_':
        return lib.column_stack([nm.at_least(it, p, 1) for p in parts])
    return nm.concat(it, [nm.at_least(it, p, 1) for p in parts], 0, lib.xp)
