"""Namespace of numpy / jax.numpy and the attributes of arrays and numpy scalars."""
from __future__ import annotations

from fractions import Fraction

from . import terms as tm
from . import npmodel as nm
from . import npextra
from .npmodel import as_term, as_cond, num1, num2, nanprop
from .terms import T, TRUE, FALSE, c_and, c_or, c_not
from .values import *

PI = tm.PI


def F(name):
    return num1(lambda x: tm.NAN if tm.has_nan(x) else tm.fn(name, x))


UN = {
    'sin': (F('sin'), 'float'), 'cos': (F('cos'), 'float'), 'tan': (F('tan'), 'float'),
    'arcsin': (F('asin'), 'float'), 'arccos': (F('acos'), 'float'), 'arctan': (F('atan'), 'float'),
    'asin': (F('asin'), 'float'), 'acos': (F('acos'), 'float'), 'atan': (F('atan'), 'float'),
    'sinh': (F('sinh'), 'float'), 'cosh': (F('cosh'), 'float'), 'tanh': (F('tanh'), 'float'),
    'exp': (F('exp'), 'float'), 'log': (F('log'), 'float'), 'log10': (F('log10'), 'float'), 'log2': (F('log2'), 'float'),
    'expm1': (num1(lambda x: tm.fn('exp', x) - T(1)), 'float'), 'log1p': (num1(lambda x: tm.fn('log', x + T(1))), 'float'),
    'sqrt': (F('sqrt'), 'float'), 'cbrt': (F('cbrt'), 'float'),
    'abs': (num1(lambda x: tm.absv(x)), None), 'absolute': (num1(tm.absv), None), 'fabs': (num1(tm.absv), 'float'),
    'floor': (F('floor'), 'float'), 'ceil': (F('ceil'), 'float'), 'trunc': (num1(nm.trunc), 'float'), 'fix': (num1(nm.trunc), 'float'),
    'rint': (F('round'), 'float'),
    'square': (num1(lambda x: x * x), None), 'negative': (num1(lambda x: -x), None), 'positive': (num1(lambda x: x), None),
    'reciprocal': (lambda a: nm.tdiv(tm.ONE, a), 'float'),
    'sign': (num1(tm.tsign), None),
    'deg2rad': (num1(lambda x: x * PI / T(180)), 'float'), 'radians': (num1(lambda x: x * PI / T(180)), 'float'),
    'rad2deg': (num1(lambda x: x * T(180) / PI), 'float'), 'degrees': (num1(lambda x: x * T(180) / PI), 'float'),
    'isnan': (nm.isnan, 'bool'), 'isinf': (nm.isinf, 'bool'),
    'isfinite': (lambda x: c_not(c_or(nm.isnan(x), nm.isinf(x))), 'bool'),
    'isneginf': (lambda x: nm.c_bool(nm.isinf(x) is TRUE and tm._inf_sign(as_term(x)) < 0), 'bool'),
    'isposinf': (lambda x: nm.c_bool(nm.isinf(x) is TRUE and tm._inf_sign(as_term(x)) > 0), 'bool'),
    'logical_not': (lambda x: c_not(as_cond(x)), 'bool'),
    'invert': (lambda x: c_not(as_cond(x)), 'bool'), 'bitwise_not': (lambda x: c_not(as_cond(x)), 'bool'),
    'signbit': (num1(lambda x: tm.lt0(x)), 'bool'),
    'real': (num1(lambda x: x), None), 'conj': (num1(lambda x: x), None),
}
BIN2 = {
    'add': (nm.tadd, None), 'subtract': (nm.tsub, None), 'multiply': (nm.tmul, None), 'divide': (nm.tdiv, 'float'),
    'true_divide': (nm.tdiv, 'float'), 'power': (nm.tpow, None), 'float_power': (nm.tpow, 'float'), 'pow': (nm.tpow, None),
    'mod': (nm.tmod, None), 'remainder': (nm.tmod, None), 'fmod': (nm.tfmod, None), 'floor_divide': (nm.tfloordiv, None),
    'maximum': (nanprop(nm.tmax), None), 'minimum': (nanprop(nm.tmin), None),
    'fmax': (lambda a, b: as_term(b) if tm.has_nan(as_term(a)) else (as_term(a) if tm.has_nan(as_term(b)) else nm.tmax(as_term(a), as_term(b))), None),
    'fmin': (lambda a, b: as_term(b) if tm.has_nan(as_term(a)) else (as_term(a) if tm.has_nan(as_term(b)) else nm.tmin(as_term(a), as_term(b))), None),
    'arctan2': (num2(lambda a, b: tm.fn('atan2', a, b)), 'float'), 'atan2': (num2(lambda a, b: tm.fn('atan2', a, b)), 'float'),
    'hypot': (nm.thypot, 'float'), 'copysign': (num2(lambda a, b: tm.ite(tm.lt0(b), -tm.absv(a), tm.absv(a))), 'float'),
    'heaviside': (num2(lambda a, b: tm.ite(tm.lt0(a), tm.ZERO, tm.ite(tm.eq0(a), b, tm.ONE))), 'float'),
    'less': (nm.CMP['Lt'], 'bool'), 'greater': (nm.CMP['Gt'], 'bool'), 'less_equal': (nm.CMP['LtE'], 'bool'),
    'greater_equal': (nm.CMP['GtE'], 'bool'), 'equal': (nm.CMP['Eq'], 'bool'), 'not_equal': (nm.CMP['NotEq'], 'bool'),
    'logical_and': (lambda a, b: c_and(as_cond(a), as_cond(b)), 'bool'), 'logical_or': (lambda a, b: c_or(as_cond(a), as_cond(b)), 'bool'),
    'bitwise_and': (lambda a, b: c_and(as_cond(a), as_cond(b)), 'bool'), 'bitwise_or': (lambda a, b: c_or(as_cond(a), as_cond(b)), 'bool'),
    'logical_xor': (lambda a, b: tm.c_ite(as_cond(a), c_not(as_cond(b)), as_cond(b)), 'bool'),
}


def arg(a, k, i, name, default=None):
    if len(a) > i:
        return a[i]
    return k.get(name, default)


class Pos(list):
    """positional arguments that record which were looked at"""
    def __init__(self, a):
        super().__init__(a)
        self.used = set()

    def __getitem__(self, i):
        if isinstance(i, slice):
            self.used |= set(range(*i.indices(len(self))))
        else:
            self.used.add(i if i >= 0 else i + len(self))
        return list.__getitem__(self, i)

    def __iter__(self):
        self.used |= set(range(len(self)))
        return list.__iter__(self)


class Kw(dict):
    """keyword arguments that record which were looked at"""
    def __init__(self, k):
        super().__init__(k)
        self.used = set()

    def get(self, n, d=None):
        self.used.add(n)
        return dict.get(self, n, d)

    def pop(self, n, *d):
        self.used.add(n)
        return dict.pop(self, n, *d)

    def __getitem__(self, n):
        self.used.add(n)
        return dict.__getitem__(self, n)

    def __contains__(self, n):
        self.used.add(n)
        return dict.__contains__(self, n)

    def keys(self):
        self.used |= set(dict.keys(self))
        return dict.keys(self)

    def items(self):
        self.used |= set(dict.keys(self))
        return dict.items(self)


NEUTRAL = {'order', 'subok', 'casting', 'precision', 'check_finite'}


MRED = set('sum prod mean max min amax amin all any std var argmax argmin nansum nanmax nanmin nanmean'.split())
MPLAIN = set('where outer solve einsum argsort sort nonzero searchsorted interp isin unique tril triu cross select kron flatnonzero trace diag diagonal'.split())
MJOIN = set('concatenate concat vstack hstack row_stack block column_stack'.split())
MSAME = set('''array asarray asanyarray ascontiguousarray asfarray copy ravel reshape transpose dot matmul zeros_like ones_like full_like empty_like clip squeeze
    shape size ndim isscalar allclose array_equal array_equiv isclose det inv norm pinv eig eigvals eigh eigvalsh matrix_rank copyto ndarray asmatrix matrix mat
    isrealobj iscomplexobj result_type broadcast_shapes can_cast round around round_ rint cumsum cumprod atleast_1d atleast_2d shares_memory may_share_memory'''.split())


def plain(v):
    return VArr(v.buf, v.idx, v.shape, v.dt, v.jx)


def matrix_like(it, r):
    """the result as np.matrix (always two-dimensional)"""
    r = it.res(r)
    if isinstance(r, VArr) and len(r.shape) <= 2 and r.jx is None:
        return VArr(r.buf, r.idx, (1,) * (2 - len(r.shape)) + tuple(r.shape), r.dt, None, True)
    raise Unsupported('result of an operation on a matrix', it.where())


def matrix_args(it, name, a, k):
    """np.matrix arguments of numpy functions: arguments to use and what to do with the result"""
    ms = [isinstance(v, VArr) and v.matrix for v in (it.res(x) for x in list(a) + list(dict.values(k)))]
    if name in MJOIN and a:
        s = it.res(a[0])
        def has(x, d=0):
            x = it.res(x)
            if isinstance(x, VArr):
                return x.matrix
            if d < 3 and (isinstance(x, VTuple) or isinstance(x, VRef) and isinstance(it.deref(x), HList) and it.deref(x).kind != 'iter'):
                return any(has(y, d + 1) for y in it.iterate(x))
            return False
        if has(s):
            return a, lambda r: matrix_like(it, r)
    if not any(ms):
        return a, None
    name = name[7:] if name.startswith('linalg.') else name
    if name in MPLAIN:
        if name == 'outer':
            return [it.mkarr(it.cells(m), (m.size,), m.dt) if ms[i] else x for i, x in enumerate(a) for m in [it.res(x)]], None
        b = [plain(it.res(x)) if ms[i] else x for i, x in enumerate(a)]
        if any(ms[len(a):]):
            raise Unsupported(f'matrix as a named argument of {name}', it.where())
        if name == 'solve' and ms[-1]:
            return b, lambda r: matrix_like(it, r)
        return b, None
    if name in MRED:
        m = it.res(a[0]) if a else None
        ax = it.res(a[1]) if len(a) > 1 else it.res(dict.get(k, 'axis'))
        if not (isinstance(m, VArr) and m.matrix) or len(m.shape) != 2 or len(a) > 2 or set(dict.keys(k)) - {'axis'}:
            raise Unsupported(f'{name} of a matrix', it.where())
        if ax is None:
            return [plain(m)] + list(a[1:]), None
        ax = const_int(ax)
        def fin(r):
            r = it.res(r)
            sh = (1, m.shape[1]) if ax % 2 == 0 else (m.shape[0], 1)
            if not isinstance(r, VArr) or r.size != sh[0] * sh[1]:
                raise Unsupported(f'{name} of a matrix', it.where())
            return VArr(r.buf, r.idx, sh, r.dt, None, True)
        return [plain(m)] + list(a[1:]), fin
    if name in ('cumsum', 'cumprod', 'reshape'):
        return a, lambda r: matrix_like(it, r)
    if name == 'ravel':
        return [plain(it.res(x)) if ms[i] else x for i, x in enumerate(a)], None
    if name in MSAME or name in UN or name in BIN2:
        return a, None
    raise Unsupported(f'{name} of a matrix', it.where())


MMAT = set('diagonal trace flatten ravel reshape cumsum cumprod'.split())
MMETH = set('''copy astype tolist item fill transpose squeeze dot clip round conj setflags view tobytes __len__ __array__ __getitem__ __setitem__ __copy__ __deepcopy__
    __iter__ __add__ __radd__ __sub__ __rsub__ __neg__ __matmul__ __rmatmul__'''.split())


def tracked(it, name, f, a, k):
    """f(a, k), rejecting calls whose arguments the model does not look at"""
    a, fin = matrix_args(it, name, a, k)
    a, k = Pos(a), Kw(k)
    r = f(a, k)
    if fin is not None:
        r = fin(r)
    left = [n for n in dict.keys(k) if n not in k.used and n not in NEUTRAL and it.res(dict.__getitem__(k, n)) is not None]
    extra = [i for i in range(len(a)) if i not in a.used]
    if left or extra:
        raise Unsupported(f'argument {left or extra} of {name}', it.where())
    return r


def ints(it, v):
    v = it.res(v)
    if isinstance(v, (VNum, VBool)):
        return [const_int(v)]
    return [const_int(it.res(x)) for x in it.iterate(v)]


def require_array(it, xp, v):
    """jax.numpy functions reject python sequences"""
    v = it.res(v)
    if xp == 'jax' and (isinstance(v, VTuple) or isinstance(v, VRef)):
        it.raise_('TypeError', 'jax.numpy function requires ndarray or scalar arguments, got list or tuple')


# jax.numpy functions and the number of their leading arguments which have to be arrays (0: a sequence of arrays)
JARRAYS = {'concatenate': 0, 'concat': 0, 'stack': 0, 'append': 2, 'where': 3, 'dot': 2, 'matmul': 2, 'cross': 2, 'clip': 3, 'reshape': 1, 'ravel': 1,
           'norm': 1, 'allclose': 2, 'isclose': 2, 'mean': 1, 'squeeze': 1, 'interp': 3, 'searchsorted': 2, 'outer': 2, 'diff': 1, 'cumsum': 1, 'tile': 1,
           'diag': 1, 'trace': 1, 'vdot': 2, 'inner': 2, 'sum': 1, 'prod': 1, 'transpose': 1, 'flip': 1, 'roll': 1, 'any': 1, 'all': 1, 'max': 1, 'min': 1}


def truthy(it, v, default=False):
    if v is None:
        return default
    return it.decide(it.truth(v)) is TRUE


class Lib:
    def __init__(self, it, ext, xp):
        self.it, self.ext, self.xp = it, ext, xp
        self.jx = 'jax' if xp == 'jax' else None
        self.ns = {}
        self.build()

    def get(self, name):
        return self.ns.get(name)

    def fn(self, *names):
        def deco(f):
            for n in names:
                if self.xp == 'jax' and n in JARRAYS:
                    lim = JARRAYS[n]
                    if lim == 0:
                        # a sequence of arrays
                        def f(a, k, g=f):
                            s = self.it.res(a[0]) if a else None
                            if isinstance(s, VTuple) or isinstance(s, VRef) and isinstance(self.it.deref(s), HList):
                                for x in self.it.iterate(s):
                                    require_array(self.it, self.xp, x)
                            return g(a, k)
                    else:
                        def f(a, k, g=f, lim=lim):
                            for x in list(a)[:lim]:
                                require_array(self.it, self.xp, x)
                            return g(a, k)
                self.ns[n] = VBuiltin(f'{self.xp}.{n}', lambda it, a, k, f=f, n=n: tracked(it, n, f, a, k))
            return f
        return deco

    # out= and where= of ufuncs
    def ufunc(self, name, f, dt, n):
        it, xp = self.it, self.xp

        def call(i, a, k):
            a = list(a)
            k = dict(k)
            out = k.pop('out', None)
            where = k.pop('where', None)
            d = k.pop('dtype', None)
            k.pop('casting', None)
            if len(a) == n + 1:
                out = a.pop()
            if len(a) != n:
                names = ['x', 'x1', 'x2']
                while len(a) < n and names and False:
                    pass
                it.raise_('TypeError', f'{name}() takes {n} positional arguments but {len(a)} were given')
            if k:
                it.raise_('TypeError', f'{name}() got an unexpected keyword argument')
            for x in a:
                require_array(it, xp, x)
            r = nm.ew(it, f, a, dt, xp)
            if d is not None:
                r = self.astype(r, nm.dtype_name(it, d))
            if out is not None:
                out = it.res(out)
                if isinstance(out, VTuple):
                    out = it.res(out.items[0])
                if where is not None:
                    r = nm.ew(it, lambda c, x, y: nm.cell_ite(as_cond(c), x, y), [where, r, out], getattr(r, 'dt', None), xp)
                nm.store(it, out, r)
                return out
            if where is not None and it.decide(it.truth(where)) is not TRUE:
                raise Unsupported('ufunc where= without out=', it.where())
            return r
        attrs = {}
        if n == 2:
            def red(i, a, k):
                v = a[0]
                axis = arg(a, k, 1, 'axis', I(0))

                def fold(cs):
                    acc = cs[0]
                    for c in cs[1:]:
                        acc = f(acc, c)
                    return acc
                return nm.reduce_axis(it, v, axis, fold, dt, xp=xp)
            attrs['reduce'] = VBuiltin(name + '.reduce', red)

            def outer(i, a, k):
                o1, o2 = nm.opnd_t(it, a[0]), nm.opnd_t(it, a[1])
                cells = [f(x, y) for x in o1.c for y in o2.c]
                return it.mkarr(cells, o1.shape + o2.shape, dt if dt == 'bool' else nm.promote([o1, o2]), self.jx)
            attrs['outer'] = VBuiltin(name + '.outer', outer)
        self.ns[name] = VBuiltin(f'{xp}.{name}', call, attrs)

    def astype(self, v, dt):
        it = self.it
        v = it.res(v)
        if isinstance(v, VArr):
            return it.mkarr([nm.cast(c, dt) for c in it.cells(v)], v.shape, dt, v.jx, v.matrix)
        o = nm.opnd_t(it, v)
        return nm.wrap(it, [nm.cast(o.c[0], dt)], (), dt, o.jx, True)

    def build(self):
        it, xp, ns = self.it, self.xp, self.ns
        for n, (f, dt) in UN.items():
            self.ufunc(n, f, dt, 1)
        for n, (f, dt) in BIN2.items():
            self.ufunc(n, f, dt, 2)
        ns.update(pi=VNum(PI, 'float'), inf=VNum(tm.INF, 'float'), Inf=VNum(tm.INF, 'float'), PINF=VNum(tm.INF, 'float'), infty=VNum(tm.INF, 'float'),
                  NINF=VNum(-tm.INF, 'float'), nan=VNum(tm.NAN, 'float'), NaN=VNum(tm.NAN, 'float'), NAN=VNum(tm.NAN, 'float'),
                  newaxis=None, e=VNum(tm.fn('exp', tm.ONE), 'float'))
        ns['ndarray'] = self.ext.jaxarray if xp == 'jax' else self.ext.ndarray
        if xp == 'jax':
            ns['Array'] = self.ext.jaxarray
        else:
            ns['matrix'] = self.ext.matrix
        for n, c in self.ext.npscalars.items():
            ns[n] = c
        if xp == 'np':
            ns['double'] = self.ext.npscalars['float64']
            ns['single'] = self.ext.npscalars['float32']
            ns['bool_'] = ns['bool'] = self.ext.npscalars['bool_']
            ns['int_'] = ns['int64']
            ns['float_'] = ns['float64']
            ns['errstate'] = VBuiltin('np.errstate', lambda i, a, k: VNative('nullctx'))
            ns['seterr'] = VBuiltin('np.seterr', lambda i, a, k: i.mkdict([]))
            ns['set_printoptions'] = VBuiltin('np.set_printoptions', lambda i, a, k: None)
        fn = self.fn

        @fn('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'asfarray')
        def array(a, k):
            raise AssertionError
        for nme in ('array', 'asarray', 'asanyarray', 'ascontiguousarray'):
            def mk(nme):
                def f(i, a, k):
                    d = nm.dtype_name(it, arg(a, k, 1, 'dtype'))
                    v = it.res(a[0] if a else k.get('object', k.get('a')))
                    cp = nme == 'array'
                    if 'copy' in k:
                        cp = it.res(k['copy']) is not None and it.decide(it.truth(k['copy'])) is TRUE
                    nd = const_int(it.res(k['ndmin'])) if 'ndmin' in k else 0
                    if isinstance(v, VArr) and v.matrix and nme != 'asanyarray' and not cp:
                        v = VArr(v.buf, v.idx, v.shape, v.dt, v.jx)
                    if isinstance(v, VNative) and v.kind == 'quantity':
                        v = it.res(v.d['m'])
                    if isinstance(v, VRef) and isinstance(it.deref(v), HList) and it.deref(v).kind == 'iter':
                        raise Unsupported('array of an iterator', it.where())
                    if isinstance(v, VNative) and v.kind == 'rotation':
                        it.raise_('TypeError', 'array of a Rotation')
                    if isinstance(v, (VNum, VBool)):
                        o = nm.opnd(it, v)
                        dt = d or o.dt
                        if xp == 'jax':
                            return nm.wrap(it, [nm.cast(o.c[0], dt)], (), dt, nm.jmax('jax', o.jx), True)
                        if o.jx == 'traced':
                            it.event('concretize', what='numpy array built from a traced value')
                            it.raise_('TypeError', 'TracerArrayConversionError')
                        c = nm.cast(o.c[0], dt)
                        sh = (1,) * nd
                        return it.mkarr([c], sh, dt)
                    if v is None or isinstance(v, str):
                        if v is None and d in ('float64', 'float32'):
                            return it.mkarr([tm.NAN], (), d)
                        raise Unsupported('object array', it.where())
                    try:
                        r = nm.array_of(it, v, d, self.jx, cp, nd)
                    except nm.NonNumeric as e:
                        it.raise_('TypeError', f'not a number: {e}')
                    return r
                return f
            ns[nme] = VBuiltin(f'{xp}.{nme}', lambda i, a, k, f=mk(nme), nme=nme: tracked(i, nme, lambda x, y: f(i, x, y), a, k))

        def filler(name, cell):
            def f(i, a, k):
                sh = nm.shape_arg(it, arg(a, k, 0, 'shape'))
                d = nm.dtype_name(it, arg(a, k, 1, 'dtype')) or 'float64'
                return nm.full(it, sh, cell() if callable(cell) else cell, d, self.jx)
            ns[name] = VBuiltin(f'{xp}.{name}', lambda i, a, k: tracked(i, name, lambda x, y: f(i, x, y), a, k))
        filler('zeros', tm.ZERO)
        filler('ones', tm.ONE)

        def junk():
            it.fresh += 1
            it.event('uninit')
            return tm.sym(f'$uninit{it.fresh}')
        filler('empty', junk)

        def full(a, k):
            sh = nm.shape_arg(it, arg(a, k, 0, 'shape'))
            o = nm.opnd_t(it, arg(a, k, 1, 'fill_value'))
            d = nm.dtype_name(it, arg(a, k, 2, 'dtype')) or o.dt
            return it.mkarr([nm.cast(c, d) for c in nm.expand(o.c, o.shape, sh)], sh, d, self.jx)
        fn('full')(full)

        def like(name, cell):
            def f(i, a, k):
                o = nm.opnd_t(it, a[0])
                d = nm.dtype_name(it, arg(a, k, 1 if name != 'full_like' else 2, 'dtype')) or o.dt
                c = cell() if callable(cell) else cell
                if name == 'full_like':
                    c = nm.opnd_t(it, arg(a, k, 1, 'fill_value')).c[0]
                return it.mkarr([nm.cast(c, d)] * len(o.c), o.shape, d, self.jx, o.matrix)
            ns[name] = VBuiltin(f'{xp}.{name}', lambda i, a, k: tracked(i, name, lambda x, y: f(i, x, y), a, k))
        like('zeros_like', tm.ZERO)
        like('ones_like', tm.ONE)
        like('empty_like', junk)
        like('full_like', None)

        @fn('eye', 'identity')
        def eye(a, k):
            n = nm.shape_arg(it, arg(a, k, 0, 'N', k.get('n')))[0]
            M = arg(a, k, 1, 'M')
            m = n if M is None or isinstance(it.res(M), VClass) else nm.shape_arg(it, M)[0]
            kk = const_int(it.res(arg(a, k, 2, 'k', I(0))))
            d = nm.dtype_name(it, k.get('dtype')) or 'float64'
            return it.mkarr([nm.cast(tm.ONE if j == i + kk else tm.ZERO, d) for i in range(n) for j in range(m)], (n, m), d, self.jx)

        @fn('diag')
        def diag(a, k):
            o = nm.opnd_t(it, a[0])
            kk = const_int(it.res(arg(a, k, 1, 'k', I(0))))
            if len(o.shape) == 1:
                n = o.shape[0] + abs(kk)
                cells = [nm.cast(tm.ZERO, o.dt)] * (n * n)
                for i, c in enumerate(o.c):
                    r, cc = (i, i + kk) if kk >= 0 else (i - kk, i)
                    cells[r * n + cc] = c
                return it.mkarr(cells, (n, n), o.dt, self.jx)
            r, cc = o.shape
            cells = [o.c[i * cc + i + kk] for i in range(r) if 0 <= i + kk < cc]
            return it.mkarr(cells, (len(cells),), o.dt, self.jx)

        @fn('linspace')
        def linspace(a, k):
            lo, hi = as_term(nm.opnd_t(it, arg(a, k, 0, 'start')).c[0]), as_term(nm.opnd_t(it, arg(a, k, 1, 'stop')).c[0])
            nv = it.res(arg(a, k, 2, 'num', I(50)))
            n = const_int(nv)
            if n is None:
                if isinstance(nv, VNum) and nv.k == 'float':
                    it.raise_('TypeError', "'float' object cannot be interpreted as an integer")
                raise Unsupported('linspace with symbolic num', it.where())
            if n < 0:
                it.raise_('ValueError', 'Number of samples must be non-negative')
            ep = truthy(it, arg(a, k, 3, 'endpoint'), True)
            cs = nm.linspace_cells(lo, hi, n, ep) if n else []
            r = it.mkarr(cs, (n,), 'float64', self.jx)
            if truthy(it, k.get('retstep')):
                return VTuple((r, VNum((hi - lo) / T(max(n - 1, 1)), 'float', 'float64')))
            return r

        @fn('arange')
        def arange(a, k):
            vs = [it.res(x) for x in a]
            if 'stop' in k:
                vs = ([it.res(k['start'])] if 'start' in k else vs) + [it.res(k['stop'])] + ([it.res(k['step'])] if 'step' in k else [])
            elif 'step' in k:
                vs.append(it.res(k['step']))
            ts = [as_term(nm.opnd_t(it, v).c[0]) for v in vs]
            lo, hi, st = (T(0), ts[0], T(1)) if len(ts) == 1 else (ts[0], ts[1], ts[2] if len(ts) > 2 else T(1))
            n = ((hi - lo) / st).const()
            if n is None:
                raise Unsupported('arange with symbolic bounds', it.where())
            import math
            n = max(0, math.ceil(n))
            dt = 'int64' if all(isinstance(v, VNum) and v.k == 'int' for v in vs) else 'float64'
            dt = nm.dtype_name(it, k.get('dtype')) or dt
            return it.mkarr([nm.cast(lo + st * T(i), dt) for i in range(n)], (n,), dt, self.jx)

        @fn('copy')
        def copy(a, k):
            require_array(it, xp, a[0])
            v = it.res(a[0])
            if isinstance(v, VArr):
                if xp == 'np' and v.jx == 'traced':
                    it.event('concretize', what='numpy copy of a traced value')
                    it.raise_('TypeError', 'TracerArrayConversionError')
                return it.mkarr(it.cells(v), v.shape, v.dt, nm.jmax(self.jx, v.jx) if self.jx else None)
            if isinstance(v, (VNum, VBool)):
                o = nm.opnd(it, v)
                if self.jx:
                    return nm.wrap(it, o.c, (), o.dt, nm.jmax('jax', o.jx), True)
                return it.mkarr(o.c, (), o.dt)
            return nm.array_of(it, v, None, self.jx)

        @fn('clip')
        def clip(a, k):
            x = arg(a, k, 0, 'a', k.get('arr'))
            require_array(it, xp, x)
            lo = arg(a, k, 1, 'a_min', k.get('min'))
            hi = arg(a, k, 2, 'a_max', k.get('max'))
            r = nm.clip(it, x, lo, hi, xp)
            out = it.res(arg(a, k, 3, 'out'))
            if out is not None:
                nm.store(it, out, r)
                return out
            return r

        @fn('where')
        def where(a, k):
            if len(a) == 1:
                raise Unsupported('where with one argument', it.where())
            for x in a:
                require_array(it, xp, x)
            ops = [nm.opnd_t(it, x) for x in a]
            dt = nm.promote(ops[1:])
            if dt == 'bool':
                return nm.ew(it, lambda c, x, y: tm.c_ite(as_cond(c), as_cond(x), as_cond(y)), a, 'bool', xp)
            return nm.ew(it, lambda c, x, y: tm.ite(as_cond(c), as_term(x), as_term(y)), a, dt, xp)

        @fn('select')
        def select(a, k):
            conds, choices = it.iterate(a[0]), it.iterate(a[1])
            r = arg(a, k, 2, 'default', I(0))
            for c, ch in reversed(list(zip(conds, choices))):
                dt = nm.promote([nm.opnd_t(it, ch), nm.opnd_t(it, r)])
                r = nm.ew(it, lambda c_, x, y: tm.ite(as_cond(c_), as_term(x), as_term(y)), [c, ch, r], dt, xp)
            return r

        @fn('nan_to_num')
        def nan_to_num(a, k):
            return nm.ew(it, lambda x: tm.ZERO if tm.has_nan(as_term(x)) else as_term(x), a[:1], None, xp)

        def red(name, f, dt=None):
            def g(i, a, k):
                x = arg(a, k, 0, 'a')
                require_array(it, xp, x)
                r = nm.reduce_axis(it, x, arg(a, k, 1, 'axis'), lambda cs: f(cs), dt(nm.opnd_t(it, x).dt) if callable(dt) else dt,
                                   truthy(it, k.get('keepdims')), xp)
                return r
            ns[name] = VBuiltin(f'{xp}.{name}', lambda i, a, k: tracked(i, name, lambda x, y: g(i, x, y), a, k))
        sumdt = lambda d: 'int64' if d == 'bool' else d
        fdt = lambda d: 'float64' if d in ('bool', 'int64') else d
        red('sum', nm.fsum, sumdt)
        red('nansum', lambda cs: nm.fsum([c for c in cs if not tm.has_nan(as_term(c))]), sumdt)
        red('prod', nm.fprod, sumdt)
        red('mean', lambda cs: nm.fsum(cs) / T(len(cs)), fdt)
        red('average', lambda cs: nm.fsum(cs) / T(len(cs)), fdt)
        red('max', lambda cs: nm.nonempty(it, cs, nm.fmax, 'maximum'))
        red('amax', lambda cs: nm.nonempty(it, cs, nm.fmax, 'maximum'))
        red('min', lambda cs: nm.nonempty(it, cs, nm.fmin, 'minimum'))
        red('amin', lambda cs: nm.nonempty(it, cs, nm.fmin, 'minimum'))
        red('all', nm.fall, 'bool')
        red('any', nm.fany, 'bool')
        red('alltrue', nm.fall, 'bool')
        red('count_nonzero', lambda cs: nm.fsum([as_cond(c) for c in cs]), 'int64')
        red('argmax', lambda cs: argext(cs, True), 'int64')
        red('argmin', lambda cs: argext(cs, False), 'int64')
        red('var', lambda cs: variance(cs), fdt)
        red('std', lambda cs: tm.fn('sqrt', variance(cs)), fdt)

        @fn('cumsum')
        def cumsum(a, k):
            o = nm.opnd_t(it, a[0])
            acc, out = tm.ZERO, []
            for c in o.c:
                acc = acc + as_term(c)
                out.append(acc)
            return it.mkarr(out, (len(out),), o.dt, self.jx)

        @fn('diff')
        def diff(a, k):
            o = nm.opnd_t(it, a[0])
            return it.mkarr([as_term(y) - as_term(x) for x, y in zip(o.c, o.c[1:])], (len(o.c) - 1,), o.dt, self.jx)
        fn('dot')(lambda a, k: self.chk(a) or nm.dot(it, a[0], a[1], xp))
        fn('matmul')(lambda a, k: self.chk(a) or nm.matmul(it, a[0], a[1], xp))
        fn('vdot')(lambda a, k: nm.dot(it, self.ravel(a[0]), self.ravel(a[1]), xp))
        fn('inner')(lambda a, k: nm.dot(it, a[0], a[1], xp))
        fn('cross')(lambda a, k: nm.cross(it, a[0], a[1], xp))
        fn('outer')(lambda a, k: ns['multiply'].attrs['outer'].fn(it, a, k))

        @fn('trace')
        def trace(a, k):
            o = nm.opnd_t(it, a[0])
            return nm.wrap(it, [nm.fsum([o.c[i * o.shape[1] + i] for i in range(min(o.shape))])], (), o.dt, self.jx, True)

        @fn('einsum')
        def einsum(a, k):
            return einsum_(it, self, a)

        def seqarg(v):
            v = it.res(v)
            if isinstance(v, VArr):
                return [nm.getitem(it, v, I(i)) for i in range(v.shape[0])]
            return it.iterate(v)
        fn('concatenate', 'concat')(lambda a, k: self.concat0(seqarg(a[0]), it.res(arg(a, k, 1, 'axis', I(0)))))
        fn('hstack')(lambda a, k: self.hstack(seqarg(a[0])))
        fn('vstack', 'row_stack')(lambda a, k: nm.concat(it, [nm.at_least(it, x, 2) for x in seqarg(a[0])], 0, xp))
        fn('stack')(lambda a, k: self.stack(seqarg(a[0]), const_int(it.res(arg(a, k, 1, 'axis', I(0))))))
        fn('column_stack')(lambda a, k: self.column_stack(seqarg(a[0])))
        fn('append')(lambda a, k: self.append(a, k))
        fn('insert')(lambda a, k: self.insert(a, k))
        fn('delete')(lambda a, k: self.delete(a, k))
        fn('atleast_1d')(lambda a, k: nm.at_least(it, a[0], 1))
        fn('atleast_2d')(lambda a, k: nm.at_least(it, a[0], 2))
        fn('reshape')(lambda a, k: it.call(self.meth(a[0], 'reshape'), [arg(a, k, 1, 'newshape', k.get('shape'))], {'order': arg(a, k, 2, 'order')}) if it.res(arg(a, k, 2, 'order')) not in (None, 'C') else nm.reshape(it, a[0], self.dims(arg(a, k, 1, 'newshape', k.get('shape'))), xp))
        fn('ravel')(lambda a, k: it.call(self.meth(a[0], 'ravel'), [], {'order': arg(a, k, 1, 'order')}) if it.res(arg(a, k, 1, 'order')) not in (None, 'C') else self.ravel(a[0]))
        fn('transpose')(lambda a, k: nm.transpose(it, self.arr(a[0])))
        fn('squeeze')(lambda a, k: self.method(self.arr(a[0]), 'squeeze')(a[1:], k))
        fn('expand_dims')(lambda a, k: self.expand_dims(a, k))
        fn('shape')(lambda a, k: VTuple([I(d) for d in nm.opnd_t(it, a[0]).shape]))
        fn('size')(lambda a, k: I(len(nm.opnd_t(it, a[0]).c)))
        fn('ndim')(lambda a, k: I(len(nm.opnd_t(it, a[0]).shape)))
        fn('broadcast_to')(lambda a, k: self.broadcast_to(a))
        fn('tile')(lambda a, k: self.tile(a))
        fn('repeat')(lambda a, k: self.repeat(a, k))
        fn('flip')(lambda a, k: self.flip(a))
        fn('roll')(lambda a, k: self.roll(a))
        fn('block')(lambda a, k: self.block(a[0]))
        fn('interp')(lambda a, k: self.interp(a))
        fn('polyval')(lambda a, k: self.polyval(a))
        fn('array_equal')(lambda a, k: self.array_equal(a, k))
        fn('isclose')(lambda a, k: self.isclose(a, k))
        fn('allclose')(lambda a, k: VBool(nm.fall(nm.opnd_t(it, self.isclose(a, k)).c), True))
        fn('isscalar')(lambda a, k: B(isinstance(it.res(a[0]), (VNum, VBool))))
        fn('iscomplexobj', 'iscomplex')(lambda a, k: B(False))
        fn('unwrap')(lambda a, k: self.unsup('unwrap'))
        fn('round', 'around', 'round_')(lambda a, k: (lambda d: nm.ew(it, lambda x: tm.fn('round', as_term(x), d), a[:1], None, xp))(as_term(nm.opnd_t(it, arg(a, k, 1, 'decimals', I(0))).c[0])))
        fn('copyto')(lambda a, k: nm.store(it, it.res(a[0]), a[1] if k.get('where') is None else it.call(self.ns['where'], [k['where'], a[1], a[0]], {})))
        fn('putmask')(lambda a, k: self.putmask(a))
        fn('fill_diagonal')(lambda a, k: self.fill_diagonal(a))
        fn('put')(lambda a, k: self.put(a))
        fn('issubdtype')(lambda a, k: B(self.issubdtype(a)))
        def result_type(a, k):
            if not all(isinstance(it.res(x), (VArr, VNum, VBool)) for x in a):
                raise Unsupported('result_type of types', it.where())
            return self.ext.dtype(nm.promote([nm.opnd_t(it, x) for x in a]))
        fn('result_type', 'promote_types')(result_type)
        fn('dtype')(lambda a, k: self.ext.dtype(nm.dtype_name(it, a[0])))
        fn('vectorize')(lambda a, k: (lambda f: VBuiltin('vectorized', lambda i, b, kk: self.vectorize(f, b)))(a[0]))
        fn('apply_along_axis')(lambda a, k: self.unsup('apply_along_axis'))
        fn('finfo')(lambda a, k: VNative('finfo') if a[0] is not NotImplemented else None)
        fn('may_share_memory', 'shares_memory')(lambda a, k: B(isinstance(it.res(a[0]), VArr) and isinstance(it.res(a[1]), VArr) and it.res(a[0]).buf == it.res(a[1]).buf))
        fn('ndenumerate')(lambda a, k: self.ndenumerate(a[0]))
        fn('meshgrid')(lambda a, k: self.unsup('meshgrid'))
        fn('tril')(lambda a, k: self.tri(a[0], lambda r, c, d=const_int(it.res(arg(a, k, 1, 'k', I(0)))): c <= r + d))
        fn('triu')(lambda a, k: self.tri(a[0], lambda r, c, d=const_int(it.res(arg(a, k, 1, 'k', I(0)))): c >= r + d))
        fn('kron')(lambda a, k: self.unsup('kron'))
        fn('take')(lambda a, k: self.take(a, k))
        fn('split', 'array_split', 'hsplit')(lambda a, k: self.split(a, k))
        lin = {}
        self.lin = lin

        def norm(i, a, k):
            ordv = it.res(arg(a, k, 1, 'ord'))
            axis = arg(a, k, 2, 'axis')
            if ordv is not None and not (const_int(ordv) == 2 and len(nm.opnd_t(it, a[0]).shape) == 1):
                if isinstance(ordv, VNum) and ordv.t == tm.INF:
                    return nm.reduce_axis(it, a[0], axis, lambda cs: nm.fmax([tm.absv(as_term(c)) for c in cs]), 'float64', xp=xp)
                if const_int(ordv) == 1 and len(nm.opnd_t(it, a[0]).shape) == 1:
                    return nm.reduce_axis(it, a[0], axis, lambda cs: nm.fsum([tm.absv(as_term(c)) for c in cs]), 'float64', xp=xp)
                raise Unsupported('norm order', it.where())
            return nm.reduce_axis(it, a[0], axis, lambda cs: tm.fn('sqrt', nm.fsum([as_term(c) * as_term(c) for c in cs])), 'float64', truthy(it, k.get('keepdims')), xp)
        lin['norm'] = VBuiltin('linalg.norm', norm)

        def sq(v):
            o = nm.opnd_t(it, v)
            if len(o.shape) != 2 or o.shape[0] != o.shape[1]:
                it.raise_(self.ext.LinAlgError, 'Last 2 dimensions of the array must be square')
            return o
        lin['det'] = VBuiltin('linalg.det', lambda i, a, k: nm.wrap(it, [nm.det_cells([as_term(c) for c in sq(a[0]).c], sq(a[0]).shape[0])], (), 'float64', self.jx, True))

        def inv(i, a, k):
            o = sq(a[0])
            cs = [as_term(c) for c in o.c]
            if nm.det_cells(cs, o.shape[0]).is_zero():
                it.raise_(self.ext.LinAlgError, 'Singular matrix')
            return it.mkarr(nm.inv_cells(cs, o.shape[0]), o.shape, 'float64', self.jx, o.matrix)
        lin['inv'] = VBuiltin('linalg.inv', inv)
        lin['pinv'] = lin['inv']
        lin['solve'] = VBuiltin('linalg.solve', lambda i, a, k: nm.matmul(it, inv(i, a[:1], {}), a[1], xp))
        lin['LinAlgError'] = self.ext.LinAlgError
        lin['multi_dot'] = VBuiltin('linalg.multi_dot', lambda i, a, k: self.unsup('multi_dot'))

        for n, v in list(lin.items()):
            if isinstance(v, VBuiltin):
                lin[n] = VBuiltin(v.name, lambda i, a, k, v=v: tracked(i, v.name, lambda x, y: v.fn(i, x, y), a, k))

        def linget(n):
            return lin.get(n)
        ns['linalg'] = VExtModule(f'{xp}.linalg', linget)
        npextra.install(self)

    # -------------------------------------------------------------- helpers
    def unsup(self, what):
        raise Unsupported(f'{self.xp}.{what}', self.it.where())

    def chk(self, a):
        for x in a[:2]:
            require_array(self.it, self.xp, x)
        return None

    def arr(self, v):
        it = self.it
        v = it.res(v)
        if isinstance(v, VArr):
            return v
        o = nm.opnd_t(it, v)
        return it.mkarr(o.c, o.shape, o.dt, o.jx)

    def ravel(self, v):
        v = self.arr(v)
        return nm.reshape(self.it, v, (v.size,), self.xp)

    def dims(self, v):
        it = self.it
        v = it.res(v)
        if isinstance(v, VNum):
            return (const_int(v),)
        return tuple(const_int(it.res(x)) for x in it.iterate(v))

    def concat0(self, seq, axis):
        it = self.it
        if axis is None:
            return nm.concat(it, [self.ravel(x) for x in seq], 0, self.xp)
        return nm.concat(it, seq, const_int(axis), self.xp)

    def hstack(self, seq):
        it = self.it
        xs = [nm.at_least(it, x, 1) for x in seq]
        return nm.concat(it, xs, 0 if len(nm.opnd_t(it, xs[0]).shape) == 1 else 1, self.xp)

    def stack(self, seq, axis):
        it = self.it
        ops = [nm.opnd_t(it, x) for x in seq]
        if any(o.shape != ops[0].shape for o in ops):
            it.raise_('ValueError', 'all input arrays must have the same shape')
        n = len(ops[0].shape) + 1
        axis %= n
        parts = [it.mkarr(o.c, o.shape[:axis] + (1,) + o.shape[axis:], o.dt, o.jx) for o in ops]
        return nm.concat(it, parts, axis, self.xp)

    def column_stack(self, seq):
        it = self.it
        parts = []
        for x in seq:
            o = nm.opnd_t(it, x)
            sh = o.shape + (1,) if len(o.shape) == 1 else o.shape
            parts.append(it.mkarr(o.c, sh, o.dt, o.jx))
        return nm.concat(it, parts, 1, self.xp)

    def append(self, a, k):
        axis = self.it.res(arg(a, k, 2, 'axis'))
        return self.concat0([a[0], a[1]] if axis is not None else [self.ravel(a[0]), self.ravel(a[1])], axis if axis is not None else I(0))

    def insert(self, a, k):
        it = self.it
        o = nm.opnd_t(it, a[0])
        if it.res(arg(a, k, 3, 'axis')) is not None and len(o.shape) != 1:
            raise Unsupported('insert along an axis', it.where())
        at = it.res(a[1])
        vals = nm.opnd_t(it, a[2])
        cells = list(o.c)
        n = len(cells)
        if isinstance(at, VNum):
            p = const_int(at)
            if p is None:
                raise Unsupported('symbolic insert position', it.where())
            if not -n <= p <= n:
                it.raise_('IndexError', f'index {p} is out of bounds for axis 0 with size {n}')
            if p < 0:
                p += n
            cells[p:p] = [nm.cast(c, o.dt) for c in vals.c]
        else:
            ps = ints(it, at)
            vs = nm.expand(vals.c, vals.shape, (len(ps),))
            for p, c in sorted(zip([q if q >= 0 else q + n for q in ps], vs), key=lambda x: -x[0]):
                cells.insert(p, nm.cast(c, o.dt))
        return it.mkarr(cells, (len(cells),), o.dt, self.jx)

    def delete(self, a, k):
        it = self.it
        o = nm.opnd_t(it, a[0])
        if len(o.shape) != 1:
            raise Unsupported('delete on a matrix', it.where())
        ps = {p % len(o.c) for p in ints(it, a[1])}
        cells = [c for i, c in enumerate(o.c) if i not in ps]
        return it.mkarr(cells, (len(cells),), o.dt, self.jx)

    def expand_dims(self, a, k):
        v = self.arr(a[0])
        ax = const_int(self.it.res(arg(a, k, 1, 'axis'))) % (v.ndim + 1)
        return nm.reshape(self.it, v, v.shape[:ax] + (1,) + v.shape[ax:], self.xp)

    def broadcast_to(self, a):
        it = self.it
        o = nm.opnd_t(it, a[0])
        sh = nm.shape_arg(it, a[1])
        if not nm._can_broadcast(o.shape, sh):
            it.raise_('ValueError', 'could not broadcast')
        return it.mkarr(nm.expand(o.c, o.shape, sh), sh, o.dt, self.jx)

    def tile(self, a):
        it = self.it
        o = nm.opnd_t(it, a[0])
        r = self.dims(a[1])
        if len(o.shape) <= 1 and len(r) == 1:
            return it.mkarr(list(o.c) * r[0], (len(o.c) * r[0],), o.dt, self.jx)
        if len(o.shape) == 1 and len(r) == 2:
            return it.mkarr(list(o.c) * r[1] * r[0], (r[0], len(o.c) * r[1]), o.dt, self.jx)
        raise Unsupported('tile', it.where())

    def repeat(self, a, k):
        it = self.it
        o = nm.opnd_t(it, a[0])
        n = const_int(it.res(a[1]))
        if n is None or len(o.shape) > 1:
            raise Unsupported('repeat', it.where())
        return it.mkarr([c for c in o.c for _ in range(n)], (len(o.c) * n,), o.dt, self.jx)

    def flip(self, a):
        v = self.arr(a[0])
        if v.ndim != 1:
            raise Unsupported('flip', self.it.where())
        return nm.getitem(self.it, v, VSlice(None, None, I(-1)))

    def roll(self, a):
        it = self.it
        o = nm.opnd_t(it, a[0])
        n = const_int(it.res(a[1]))
        if len(o.shape) != 1 or n is None:
            raise Unsupported('roll', it.where())
        n %= len(o.c)
        return it.mkarr(list(o.c[-n:] + o.c[:-n]) if n else list(o.c), o.shape, o.dt, self.jx)

    def block(self, v):
        it = self.it
        rows = it.iterate(v)
        out = []
        for r in rows:
            r = it.res(r)
            if isinstance(r, VRef):
                out.append(nm.concat(it, [nm.at_least(it, x, 2) for x in it.iterate(r)], 1, self.xp))
            else:
                return self.hstack(rows)
        return nm.concat(it, out, 0, self.xp)

    def interp(self, a):
        """piecewise-linear interpolation over constant knots"""
        it = self.it
        x = nm.opnd_t(it, a[0])
        xp_ = [as_term(c) for c in nm.opnd_t(it, a[1]).c]
        fp = [as_term(c) for c in nm.opnd_t(it, a[2]).c]

        def f(t):
            t = as_term(t)
            r = fp[-1]
            for i in range(len(xp_) - 2, -1, -1):
                seg = fp[i] + (fp[i + 1] - fp[i]) * (t - xp_[i]) / (xp_[i + 1] - xp_[i])
                r = tm.ite(tm.lt0(t - xp_[i + 1]), seg, r)
            return tm.ite(tm.lt0(t - xp_[0]), fp[0], r)
        return nm.ew(it, f, a[:1], 'float64', self.xp)

    def polyval(self, a):
        p = nm.opnd_t(self.it, a[0])

        def f(x):
            acc = tm.ZERO
            for c in p.c:
                acc = acc * as_term(x) + as_term(c)
            return acc
        return nm.ew(self.it, f, [a[1]], None, self.xp)

    def array_equal(self, a, k):
        it = self.it
        nan = it.truth(arg(a, k, 2, 'equal_nan', VBool(FALSE)))
        x, y = nm.opnd_t(it, a[0]), nm.opnd_t(it, a[1])
        if x.shape != y.shape:
            return VBool(FALSE, True)
        return VBool(c_and(*[c_or(nm.eq(p, q), c_and(nan, nm.isnan(p), nm.isnan(q))) for p, q in zip(x.c, y.c)]) if x.c else TRUE, True)

    def isclose(self, a, k):
        it = self.it
        rt = as_term(nm.opnd_t(it, arg(a, k, 2, 'rtol', VNum(T(1e-5)))).c[0])
        at = as_term(nm.opnd_t(it, arg(a, k, 3, 'atol', VNum(T(1e-8)))).c[0])

        def f(x, y):
            x, y = as_term(x), as_term(y)
            if nm.infpair(x, y):
                return nm.eq(x, y)
            return nm.le(tm.absv(x - y), at + rt * tm.absv(y))
        return nm.ew(it, f, a[:2], 'bool', self.xp)

    def fill_diagonal(self, a):
        it = self.it
        v = it.res(a[0])
        n = min(v.shape)
        d = VArr(v.buf, [v.idx[i * v.shape[1] + i] for i in range(n)], (n,), v.dt, v.jx)
        nm.store(it, d, a[1])

    def issubdtype(self, a):
        d = nm.dtype_name(self.it, a[0])
        t = self.it.res(a[1])
        n = t.name if isinstance(t, VClass) else ''
        kinds = {'floating': ('float64', 'float32'), 'inexact': ('float64', 'float32'), 'number': ('float64', 'float32', 'int64'),
                 'integer': ('int64',), 'signedinteger': ('int64',)}
        if n in kinds:
            return d in kinds[n]
        return d == nm.dtype_name(self.it, a[1])

    def meth(self, v, name):
        return self.it.getattr(self.it.call(self.ns['asarray'], [v], {}), name)

    def put(self, a):
        it = self.it
        v = it.res(a[0])
        idx = ints(it, a[1])
        vals = nm.opnd_t(it, a[2]).c
        if any(i is None for i in idx) or not isinstance(v, VArr) or not vals:
            self.unsup('put')
        for j, i in enumerate(idx):
            if not -v.size <= i < v.size:
                it.raise_('IndexError', 'index out of bounds')
            i %= v.size
            nm.store(it, VArr(v.buf, [v.idx[i]], (), v.dt, v.jx), nm.wrap(it, [vals[j % len(vals)]], (), 'float64', None, True))

    def putmask(self, a):
        it = self.it
        v = it.res(a[0])
        m, x = nm.opnd_t(it, a[1]), nm.opnd_t(it, a[2])
        if not isinstance(v, VArr) or m.shape != v.shape or (len(x.c) != 1 and x.shape != v.shape):
            self.unsup('putmask')
        nm.store(it, v, it.call(self.ns['where'], [a[1], a[2], v], {}))

    def vectorize(self, f, args):
        it = self.it
        ops = [nm.opnd_t(it, x) for x in args]
        sh = nm.bshape(it, [o.shape for o in ops])
        cols = [nm.expand(o.c, o.shape, sh) for o in ops]
        out = []
        dt = 'float64'
        for xs in zip(*cols):
            r = it.call(f, [nm.wrap(it, [x], (), o.dt, None, True) for x, o in zip(xs, ops)], {})
            o = nm.opnd_t(it, r)
            out.append(o.c[0])
            dt = o.dt
        return nm.wrap(it, out, sh, dt, self.jx, True)

    def ndenumerate(self, v):
        import itertools
        it = self.it
        v = self.arr(v)
        out = []
        for ix, c in zip(itertools.product(*[range(d) for d in v.shape]), it.cells(v)):
            out.append(VTuple((VTuple([I(i) for i in ix]), nm.wrap(it, [c], (), v.dt, v.jx, True))))
        return it.mklist(out, 'iter')

    def tri(self, v, keep):
        it = self.it
        o = nm.opnd_t(it, v)
        r, c = o.shape
        z = nm.cast(tm.ZERO, o.dt)
        return it.mkarr([o.c[i * c + j] if keep(i, j) else z for i in range(r) for j in range(c)], o.shape, o.dt, self.jx)

    def take(self, a, k):
        it = self.it
        v = self.arr(a[0])
        if it.res(arg(a, k, 2, 'axis')) is not None and v.ndim > 1:
            raise Unsupported('take along an axis', it.where())
        ix = it.res(arg(a, k, 1, 'indices'))
        if isinstance(ix, (VTuple, VRef)):
            ix = self.arr(ix)
        if isinstance(ix, VArr) and ix.dt == 'bool' or isinstance(ix, VBool):
            raise Unsupported('take with conditions', it.where())
        r = nm.getitem(it, self.ravel(v), ix)
        return r

    def split(self, a, k):
        it = self.it
        v = self.arr(a[0])
        s = it.res(a[1])
        if v.ndim != 1:
            raise Unsupported('split of a matrix', it.where())
        n = v.shape[0]
        if isinstance(s, VNum):
            q = const_int(s)
            if n % q:
                it.raise_('ValueError', 'array split does not result in an equal division')
            cuts = [n // q * i for i in range(1, q)]
        else:
            cuts = ints(it, s)
        b = [0] + cuts + [n]
        return it.mklist([nm.getitem(it, v, VSlice(I(x), I(y), None)) for x, y in zip(b, b[1:])])

    # -------------------------------------------------------------- array attributes
    def attr(self, a, name):
        it = self.it
        if name == 'shape':
            return VTuple([I(d) for d in a.shape])
        if name == 'size':
            return I(a.size)
        if name == 'ndim':
            return I(a.ndim)
        if name == 'dtype':
            return self.ext.dtype(a.dt)
        if name == 'T':
            return nm.transpose(it, a) if a.ndim > 1 else a
        if name == 'A' and a.matrix:
            return VArr(a.buf, a.idx, a.shape, a.dt, a.jx)
        if name == 'A1' and a.matrix:
            return VArr(a.buf, a.idx, (a.size,), a.dt, a.jx)
        if name == 'I' and a.matrix:
            return it.call(self.lin['inv'], [a], {})
        if name == 'real':
            return a
        if name == 'flat':
            return it.mklist(it.iterate(self.ravel(a)), 'iter')
        if name == 'at' and a.jx is not None:
            return VNative('at', a=a)
        if name == 'flags' or name == 'base':
            raise Unsupported(f'ndarray.{name}', it.where())
        m = self.method(plain(a) if a.matrix and (name in MMAT or name in MRED) else a, name)
        if m is None:
            if a.matrix and name in ('getA', 'getA1', 'getT', 'getI'):
                m = lambda b, k: self.attr(a, {'getA': 'A', 'getA1': 'A1', 'getT': 'T', 'getI': 'I'}[name])
            else:
                return NotImplemented
        elif a.matrix:
            m = self.matrix_method(a, name, m)
        return VBuiltin(f'ndarray.{name}', lambda i, b, k: tracked(i, name, m, b, k))

    def matrix_method(self, a, name, m):
        it = self.it
        if name in MRED:
            return lambda b, k: it.call(self.ext.nlib.ns[name], [a] + list(b), dict(k.items()))
        if name in MMAT:
            def f(b, k):
                r = m(b, k)
                if name == 'trace':
                    r = it.mkarr([nm.opnd_t(it, r).c[0]], (1, 1), nm.opnd_t(it, r).dt)
                return matrix_like(it, r)
            return f
        if name in MMETH:
            return m
        return lambda b, k: self.unsup(f'{name} of a matrix')

    def order(self, k, b=()):
        o = self.it.res(b[0] if len(b) else k.get('order'))
        if o in (None, 'C'):
            return 'C'
        if o == 'F':
            return 'F'
        raise Unsupported(f'memory order {o!r}', self.it.where())

    def fortran(self, a, sh):
        """the elements in column-major order, in the given shape"""
        it = self.it
        f = it.cells(nm.transpose(it, a, None))
        t = nm.reshape(it, it.mkarr(f, (len(f),), a.dt, a.jx), tuple(sh)[::-1])
        return it.mkarr(it.cells(nm.transpose(it, t, None)), tuple(t.shape)[::-1], a.dt, a.jx)

    def method(self, a, name):
        it = self.it
        lib = self.ext.jlib if a.jx is not None and self.ext.jlib is not None else self.ext.nlib
        if name in ('sum', 'prod', 'mean', 'max', 'min', 'all', 'any', 'argmax', 'argmin', 'std', 'var', 'cumsum', 'cumprod', 'round', 'clip', 'dot', 'repeat', 'take',
                    'trace', 'conj'):
            if name == 'dot' or name == 'clip':
                pass
            f = lib.ns[name]
            return lambda b, k: it.call(f, [a] + list(b), dict(k.items()))
        if name == 'copy':
            return lambda b, k: it.mkarr(it.cells(a), a.shape, a.dt, a.jx, a.matrix)
        if name in ('__copy__', '__deepcopy__'):
            return lambda b, k: it.mkarr(it.cells(a), a.shape, a.dt, a.jx, a.matrix)
        if name == 'astype':
            def astype(b, k):
                d = nm.dtype_name(it, arg(b, k, 0, 'dtype'))
                if 'copy' in k and it.decide(it.truth(k['copy'])) is FALSE and d == a.dt:
                    return a
                return self.astype(a, d)
            return astype
        if name in ('reshape',):
            def rs(b, k):
                order = self.order(k)
                if order == 'F':
                    sh = self.dims(b[0]) if len(b) == 1 else tuple(const_int(it.res(x)) for x in b)
                    return self.fortran(a, sh)
                sh = self.dims(b[0]) if len(b) == 1 else tuple(const_int(it.res(x)) for x in b)
                return nm.reshape(it, a, sh)
            return rs
        if name == 'flatten':
            return lambda b, k: self.fortran(a, (a.size,)) if self.order(k, b) == 'F' else it.mkarr(it.cells(a), (a.size,), a.dt, a.jx)
        if name == 'ravel':
            return lambda b, k: self.fortran(a, (a.size,)) if self.order(k, b) == 'F' else nm.reshape(it, a, (a.size,))
        if name == 'squeeze':
            def squeeze(b, k):
                ax = it.res(arg(b, k, 0, 'axis'))
                if ax is not None:
                    ax = const_int(ax) % a.ndim
                    if a.shape[ax] != 1:
                        it.raise_('ValueError', 'cannot select an axis to squeeze out which has size not equal to one')
                    sh = tuple(d for i, d in enumerate(a.shape) if i != ax)
                else:
                    sh = tuple(d for d in a.shape if d != 1)
                if a.matrix:
                    return a
                return nm.reshape(it, a, sh)
            return squeeze
        if name == 'transpose':
            return lambda b, k: nm.transpose(it, a, None if not b or it.res(b[0]) is None else
                                             [x % a.ndim for x in (ints(it, b[0]) if len(b) == 1 else [const_int(it.res(x)) for x in b])])
        if name == 'tolist':
            def tolist(b, k):
                def rec(cells, shape):
                    if not shape:
                        c = cells[0]
                        return VBool(c) if a.dt == 'bool' else VNum(c, 'int' if a.dt == 'int64' else 'float')
                    w = len(cells) // shape[0] if shape[0] else 0
                    return it.mklist([rec(cells[i * w:(i + 1) * w], shape[1:]) for i in range(shape[0])])
                if a.jx == 'traced':
                    it.event('concretize', what='tolist() of a traced value')
                return rec(it.cells(a), a.shape)
            return tolist
        if name == 'item':
            def item(b, k):
                if a.jx == 'traced':
                    it.event('concretize', what='item() of a traced value')
                    it.raise_('TypeError', 'ConcretizationTypeError')
                v = a
                if b:
                    x = it.res(b[0])
                    if len(b) == 1 and a.ndim > 1 and not isinstance(x, VTuple):
                        a1 = self.ravel(a)
                    else:
                        a1 = a
                    v = nm.getitem(it, a1, VTuple(b) if len(b) > 1 else x)
                    o = nm.opnd_t(it, v)
                else:
                    o = nm.opnd_t(it, v)
                    if len(o.c) != 1:
                        it.raise_('ValueError', 'can only convert an array of size 1 to a Python scalar')
                c = o.c[0]
                return VBool(c) if a.dt == 'bool' else VNum(c, 'int' if a.dt == 'int64' else 'float')
            return item
        if name == 'fill':
            return lambda b, k: nm.store(it, a, b[0])
        if name in ('argsort', 'nonzero', 'ptp', 'swapaxes', 'compress', 'diagonal', 'searchsorted') and name in lib.ns:
            if name == 'compress':
                return lambda b, k: it.call(lib.ns[name], [b[0], a], dict(k.items()))
            return lambda b, k: it.call(lib.ns[name], [a] + list(b), dict(k.items()))
        if name == 'sort' and a.jx is None:
            return lambda b, k: nm.store(it, a, it.call(lib.ns['sort'], [a] + list(b), dict(k.items())))
        if name in ('block_until_ready', 'view'):
            return lambda b, k: a
        if name == 'nonzero':
            return lambda b, k: self.unsup('nonzero')
        if name == 'setflags':
            def setflags(b, k):
                if b or it.decide(it.truth(k.get('write', VBool(TRUE)))) is not TRUE:
                    self.unsup('setflags')
            return setflags
        if name == 'tobytes' or name == 'tostring':
            # stands for the bytes in comparisons: equal exactly when kind and cells are
            return lambda b, k: VTuple(['bytes:' + a.dt] + [VBool(x) if a.dt == 'bool' else VNum(x, 'float') for x in it.cells(a)])
        if name == '__len__':
            return lambda b, k: I(a.shape[0])
        if name == '__array__':
            return lambda b, k: a
        if name == '__getitem__':
            return lambda b, k: nm.getitem(it, a, it.res(b[0]))
        if name == '__setitem__':
            return lambda b, k: nm.setitem(it, a, it.res(b[0]), it.res(b[1]))
        DUN = {'__add__': 'Add', '__sub__': 'Sub', '__mul__': 'Mult', '__truediv__': 'Div', '__matmul__': 'MatMult', '__mod__': 'Mod', '__pow__': 'Pow'}
        if name in DUN:
            return lambda b, k: it.binop(DUN[name], a, b[0])
        if name in ('__lt__', '__gt__', '__le__', '__ge__', '__eq__', '__ne__'):
            op = {'__lt__': 'Lt', '__gt__': 'Gt', '__le__': 'LtE', '__ge__': 'GtE', '__eq__': 'Eq', '__ne__': 'NotEq'}[name]
            return lambda b, k: it.compare(op, a, b[0])
        return None


def argext(cs, mx):
    best, bi = as_term(cs[0]), tm.ZERO
    for i, c in enumerate(cs[1:], 1):
        c = as_term(c)
        g = nm.ltx(best, c) if mx else nm.ltx(c, best)
        best, bi = tm.ite(g, c, best), tm.ite(g, T(i), bi)
    return bi


def variance(cs):
    n = T(len(cs))
    m = nm.fsum(cs) / n
    return nm.fsum([(as_term(c) - m) * (as_term(c) - m) for c in cs]) / n


def einsum_(it, lib, a):
    import itertools
    spec = it.res(a[0])
    if not isinstance(spec, str):
        raise Unsupported('einsum spec')
    spec = spec.replace(' ', '')
    ops = [nm.opnd_t(it, x) for x in a[1:]]
    if '->' in spec:
        lhs, rhs = spec.split('->')
    else:
        lhs = spec
        letters = lhs.replace(',', '')
        rhs = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = lhs.split(',')
    dim = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape):
            dim[c] = d
    summed = [c for c in dim if c not in rhs]
    out = []

    def at(o, s, env):
        p = 0
        for c, d in zip(s, o.shape):
            p = p * d + env[c]
        return as_term(o.c[p])
    for ix in itertools.product(*[range(dim[c]) for c in rhs]):
        env = dict(zip(rhs, ix))
        acc = tm.ZERO
        for sx in itertools.product(*[range(dim[c]) for c in summed]):
            e = {**env, **dict(zip(summed, sx))}
            p = tm.ONE
            for s, o in zip(ins, ops):
                p = p * at(o, s, e)
            acc = acc + p
        out.append(acc)
    return nm.wrap(it, out, tuple(dim[c] for c in rhs), nm.promote(ops), nm.jmax(*[o.jx for o in ops]), True)
