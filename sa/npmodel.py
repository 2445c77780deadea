"""Array domain: exact shapes, element-wise algebraic values, buffer identities (aliasing),
dtype (integer truncation) and the numpy / jax.numpy operations over them."""
from __future__ import annotations

import functools
import itertools
import math
from fractions import Fraction

from . import terms as tm
from .terms import T, Term, Cond, TRUE, FALSE, c_and, c_or, c_not
from .values import *

NAN, INF, PI = tm.NAN, tm.INF, tm.PI
RANK = {'bool': 0, 'int64': 1, 'float32': 2, 'float64': 3}


class Opnd:
    """operand: flat cells + shape + dtype"""
    __slots__ = ('c', 'shape', 'dt', 'weak', 'jx', 'scalar', 'matrix', 'npname')

    def __init__(self, c, shape, dt, weak=False, jx=None, scalar=False, matrix=False):
        self.c, self.shape, self.dt, self.weak, self.jx, self.scalar, self.matrix = c, shape, dt, weak, jx, scalar, matrix


def jmax(*js):
    if 'traced' in js:
        return 'traced'
    if 'jax' in js:
        return 'jax'
    return None


def size_of(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def as_term(x):
    return x if isinstance(x, Term) else tm.ite(x, tm.ONE, tm.ZERO)


def as_cond(x):
    return x if isinstance(x, Cond) else c_not(tm.eq0(x))


def opnd(it, v):
    v = it.res(v)
    if isinstance(v, VNum):
        return Opnd([v.t], (), ('int64' if v.k == 'int' else ('float32' if v.np == 'float32' else 'float64')), v.np is None, v.jx, True)
    if isinstance(v, VBool):
        return Opnd([v.c], (), 'bool', not v.np, v.jx, True)
    if isinstance(v, VArr):
        return Opnd(it.cells(v), v.shape, v.dt, False, v.jx, False, v.matrix)
    if isinstance(v, VTuple) or isinstance(v, VRef):
        o = it.deref(v) if isinstance(v, VRef) else None
        if isinstance(v, VTuple) or (isinstance(o, HList) and o.kind in ('list',)):
            a = array_of(it, v)
            return opnd(it, a)
        if isinstance(o, HInst):
            m = it.find_special(v, '__array__')
            if m is not None:
                return opnd(it, it.call(m, [v], {}))
    if v is None:
        raise NonNumeric('NoneType')
    if isinstance(v, VNative) and v.kind == 'quantity':
        raise Unsupported('numpy operation on a quantity', it.where())
    if isinstance(v, VNative) and v.kind == 'rotation':
        raise NonNumeric('Rotation')
    raise NonNumeric(it.type_of(v).name)


class NonNumeric(Exception):
    pass


def opnd_t(it, v):
    """operand, raising TypeError in the analysed program for non-numbers"""
    try:
        return opnd(it, v)
    except NonNumeric as e:
        it.raise_('TypeError', f'ufunc not supported for the input type {e}')


def promote(ops):
    strong = [o for o in ops if not o.weak]
    weak = [o for o in ops if o.weak]
    if not strong:
        return max((o.dt for o in weak), key=RANK.get)
    dt = max((o.dt for o in strong), key=RANK.get)
    if 'int64' in [o.dt for o in strong] and dt == 'float32':
        dt = 'float64'
    for o in weak:
        if o.dt == 'int64' and dt == 'bool':
            dt = 'int64'
        if o.dt in ('float64', 'float32') and dt in ('bool', 'int64'):
            dt = 'float64'
    return dt


def bshape(it, shapes):
    n = max((len(s) for s in shapes), default=0)
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            j = i - (n - len(s))
            if j < 0:
                continue
            if s[j] != 1:
                if d not in (1, s[j]):
                    it.raise_('ValueError', f'operands could not be broadcast together with shapes {shapes}')
                d = s[j]
        out.append(d)
    return tuple(out)


def expand(cells, shape, target):
    """flat cells broadcast to the target shape"""
    if shape == target:
        return list(cells)
    n = len(target)
    sh = (1,) * (n - len(shape)) + tuple(shape)
    st = []
    s = 1
    for d in reversed(sh):
        st.append(s)
        s *= d
    st.reverse()
    out = []
    for ix in itertools.product(*[range(d) for d in target]):
        out.append(cells[sum((0 if sh[a] == 1 else ix[a]) * st[a] for a in range(n))])
    return out


def wrap(it, cells, shape, dt, jx, scalar, matrix=False):
    """result value: numpy scalar for 0-d, fresh array otherwise"""
    if shape == ():
        c = cells[0]
        if dt == 'bool':
            return VBool(as_cond(c), True, jx)
        return VNum(as_term(c), 'int' if dt == 'int64' else 'float', dt, jx)
    return it.mkarr(cells, shape, dt, jx, matrix)


def is_np_scalar_free(ops):
    return all(o.weak for o in ops)


def ew(it, f, vals, dt=None, xp=None):
    """elementwise operation with broadcasting"""
    ops = [opnd_t(it, v) for v in vals]
    if xp == 'np' and any(o.jx == 'traced' for o in ops):
        it.event('concretize', what='numpy function applied to a traced value')
        it.raise_('TypeError', 'TracerArrayConversionError')
    shape = bshape(it, [o.shape for o in ops])
    cols = [expand(o.c, o.shape, shape) for o in ops]
    r = promote(ops)
    out = [f(*xs) for xs in zip(*cols)]
    jx = jmax(*[o.jx for o in ops])
    if xp == 'np':
        jx = None
    elif xp == 'jax':
        jx = jmax('jax', jx)
    rdt = dt or r
    if dt == 'float':
        rdt = 'float32' if r == 'float32' else 'float64'
    if rdt == 'bool' and dt is None:
        rdt = 'bool' if out and isinstance(out[0], Cond) else 'int64'
    return wrap(it, out, shape, rdt, jx, True, any(o.matrix for o in ops))


def map1(it, v, f):
    return ew(it, lambda x: f(as_term(x)), [v])


# ------------------------------------------------------------------ scalar functions
def num2(f):
    return lambda a, b: f(as_term(a), as_term(b))


def num1(f):
    return lambda a: f(as_term(a))


def tdiv(a, b):
    a, b = as_term(a), as_term(b)
    if b.is_zero():
        if a.is_zero():
            return NAN
        s = tm.sign_of(a)
        if s == 'pos':
            return INF
        if s == 'neg':
            return -INF
        return tm.fn('divzero', a)
    if tm._inf_sign(b) is not None and tm._inf_sign(a) is None:
        return tm.ZERO
    return a / b


def tmul(a, b):
    a, b = as_term(a), as_term(b)
    if tm.has_nan(a) or tm.has_nan(b):
        return NAN
    return a * b


def tmod(a, b):
    return tm.mod(as_term(a), as_term(b))


def tfmod(a, b):
    a, b = as_term(a), as_term(b)
    q = a / b
    return a - b * tm.ite(tm.lt0(q), tm.fn('ceil', q), tm.fn('floor', q))


def tfloordiv(a, b):
    a, b = as_term(a), as_term(b)
    if b.is_zero():
        return tm.fn('divzero', a)
    return tm.fn('floor', a / b)


def tpow(a, b):
    a, b = as_term(a), as_term(b)
    return tm.fn('pow', a, b)


def thypot(a, b):
    return tm.fn('sqrt', as_term(a) * as_term(a) + as_term(b) * as_term(b))


def isnan(x):
    return c_bool(tm.has_nan(as_term(x))) if not isinstance(x, Cond) else FALSE


def c_bool(b):
    return TRUE if b else FALSE


def isinf(x):
    x = as_term(x)
    return c_bool(tm._inf_sign(x) is not None and not tm.has_nan(x))


def lt(a, b):
    return tm.lt0(as_term(a) - as_term(b)) if not infpair(a, b) else infcmp(a, b, 'lt')


def infpair(a, b):
    a, b = as_term(a), as_term(b)
    return tm._inf_sign(a) is not None and tm._inf_sign(b) is not None


def infcmp(a, b, op):
    sa, sb = tm._inf_sign(as_term(a)), tm._inf_sign(as_term(b))
    return c_bool({'lt': sa < sb, 'le': sa <= sb, 'eq': sa == sb}[op])


def le(a, b):
    if infpair(a, b):
        return infcmp(a, b, 'le')
    d = as_term(a) - as_term(b)
    return FALSE if tm.has_nan(as_term(a)) or tm.has_nan(as_term(b)) else tm.le0(d)


def eq(a, b):
    if infpair(a, b):
        return infcmp(a, b, 'eq')
    if tm.has_nan(as_term(a)) or tm.has_nan(as_term(b)):
        return FALSE
    return tm.eq0(as_term(a) - as_term(b))


def ltx(a, b):
    if tm.has_nan(as_term(a)) or tm.has_nan(as_term(b)):
        return FALSE
    return lt(a, b)


CMP = {
    'Lt': ltx, 'Gt': lambda a, b: ltx(b, a), 'LtE': le, 'GtE': lambda a, b: le(b, a),
    'Eq': eq, 'NotEq': lambda a, b: c_not(eq(a, b)),
}


def nanprop(f):
    def g(a, b):
        a, b = as_term(a), as_term(b)
        if tm.has_nan(a) or tm.has_nan(b):
            return NAN
        return f(a, b)
    return g


def tmax(a, b):
    return tm.ite(ltx(a, b), b, a)


def tmin(a, b):
    return tm.ite(ltx(b, a), b, a)


def tadd(a, b):
    a, b = as_term(a), as_term(b)
    if infpair(a, b):
        if tm._inf_sign(a) != tm._inf_sign(b):
            return NAN
        return a
    return a + b


def tsub(a, b):
    a, b = as_term(a), as_term(b)
    if infpair(a, b):
        if tm._inf_sign(a) == tm._inf_sign(b):
            return NAN
        return a
    return a - b


def tclip(x, lo, hi):
    """numpy: minimum(maximum(x, lo), hi)"""
    return nanprop(tmin)(nanprop(tmax)(x, lo), hi)


def trunc(t):
    t = as_term(t)
    c = t.const()
    if c is not None:
        return T(int(c))
    if tm.is_int_term(t):
        return t
    return tm.ite(tm.lt0(t), tm.fn('ceil', t), tm.fn('floor', t))


def cast(x, dt):
    """cell converted to the buffer's dtype"""
    if dt == 'bool':
        return as_cond(x)
    x = as_term(x)
    return trunc(x) if dt == 'int64' else x


BIN = {
    'Add': tadd, 'Sub': tsub, 'Mult': tmul, 'Div': tdiv, 'Mod': tmod, 'FloorDiv': tfloordiv, 'Pow': tpow,
}


def arith(it, op, a, b, xp=None):
    if op == 'MatMult':
        return matmul(it, a, b, xp)
    ra, rb = it.res(a), it.res(b)
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        f = {'BitAnd': c_and, 'BitOr': c_or, 'BitXor': lambda p, q: tm.c_ite(p, c_not(q), q)}[op]
        oa, ob = opnd_t(it, a), opnd_t(it, b)
        if oa.dt == ob.dt == 'bool':
            return ew(it, lambda p, q: f(as_cond(p), as_cond(q)), [a, b], 'bool', xp)
        raise Unsupported('bitwise operation on numbers', it.where())
    if op == 'Mult' and any(isinstance(x, VArr) and x.matrix for x in (ra, rb)) and all(isinstance(x, VArr) for x in (ra, rb)):
        if isinstance(ra, VArr) and ra.matrix and isinstance(rb, VArr) and len(rb.shape) == 1:
            # np.matrix takes a vector as a row
            b = VArr(rb.buf, rb.idx, (1,) + tuple(rb.shape), rb.dt, rb.jx, True)
        return matmul(it, a, b, xp)
    if op in ('Pow', 'Mult', 'Div') and any(isinstance(x, VArr) and x.matrix for x in (ra, rb)) and \
            (op == 'Pow' or op == 'Mult' and not all(isinstance(x, (VNum, VBool, VArr)) for x in (ra, rb))):
        raise Unsupported('operator of a matrix', it.where())
    f = BIN.get(op)
    if f is None:
        raise Unsupported(f'operator {op}', it.where())
    return ew(it, f, [a, b], 'float' if op == 'Div' else None, xp)


# ------------------------------------------------------------------ construction
def dtype_name(it, d):
    d = it.res(d)
    if d is None:
        return None
    if isinstance(d, VClass):
        n = d.name
    elif isinstance(d, VNative) and d.kind == 'dtype':
        n = d.d['name']
    elif isinstance(d, str):
        n = d
    else:
        raise Unsupported('dtype')
    n = n.rstrip('_')
    m = {'float': 'float64', 'double': 'float64', 'float64': 'float64', 'd': 'float64', 'f8': 'float64', 'float32': 'float32', 'single': 'float32',
         'f4': 'float32', 'float16': 'float32', 'half': 'float32', 'longdouble': 'float64',
         'int': 'int64', 'int64': 'int64', 'int32': 'int64', 'int16': 'int64', 'int8': 'int64', 'uint8': 'int64', 'uint32': 'int64', 'uint64': 'int64', 'intp': 'int64', 'bool': 'bool', 'i8': 'int64', 'i4': 'int64', 'i': 'int64', 'f': 'float32'}
    if n == 'object':
        raise Unsupported('object arrays')
    if n not in m:
        raise Unsupported(f'dtype {n}')
    return m[n]


def nested(it, v):
    """(cells, shape, dts, jx) of nested sequences / arrays / scalars"""
    v = it.res(v)
    if isinstance(v, VTuple):
        items = list(v.items)
    elif isinstance(v, VRef) and isinstance(it.deref(v), HList):
        if it.deref(v).kind not in ('list',):
            raise Unsupported('array of a non-sequence')
        items = list(it.deref(v).items)
    else:
        if v is None:
            return [None], (), {'none'}, None
        if isinstance(v, VRef):
            fl = it.find_special(v, '__float__')
            if fl is not None:
                return nested(it, it.call(fl, [v], {}))
        o = opnd_t(it, v)
        return list(o.c), o.shape, {o.dt}, o.jx
    cells, shape, dts, jx = [], None, set(), None
    for x in items:
        c, s, d, j = nested(it, x)
        if shape is None:
            shape = s
        elif shape != s:
            it.raise_('ValueError', 'setting an array element with a sequence: inhomogeneous shape')
        cells += c
        dts |= d
        jx = jmax(jx, j)
    if shape is None:
        return [], (0,), {'float64'}, None
    return cells, (len(items),) + shape, dts, jx


def array_of(it, v, dt=None, jx=None, copy=True, ndmin=0, matrix=False):
    v = it.res(v)
    if isinstance(v, VArr) and not copy and (dt is None or dt == v.dt) and (jx is None) == (v.jx is None):
        return v
    cells, shape, dts, j = nested(it, v)
    if 'none' in dts:
        if dt in ('float64', 'float32'):
            cells = [NAN if c is None else c for c in cells]
            dts.discard('none')
            dts = dts or {'float64'}
        elif dt is None:
            raise Unsupported('object array', it.where())
        else:
            it.raise_('TypeError', 'cannot convert None')
    r = max(dts, key=RANK.get)
    if 'int64' in dts and r == 'float32':
        r = 'float64'
    d = dt or r
    if j == 'traced' and jx is None:
        it.event('concretize', what='numpy array built from a traced value')
        it.raise_('TypeError', 'TracerArrayConversionError')
    cells = [cast(c, d) if dt is not None or True else c for c in cells]
    if ndmin > len(shape):
        shape = (1,) * (ndmin - len(shape)) + shape
    rj = None if jx is None else jmax(jx, j)
    return it.mkarr(cells, shape, d, rj, matrix)


def full(it, shape, cell, dt='float64', jx=None):
    return it.mkarr([cast(cell, dt)] * size_of(shape), shape, dt, jx)


def shape_arg(it, v):
    v = it.res(v)
    if isinstance(v, (VNum, VBool)):
        n = const_int(v)
        if n is None:
            if isinstance(v, VNum) and v.k == 'float':
                it.raise_('TypeError', "'float' object cannot be interpreted as an integer")
            raise Unsupported('symbolic array shape', it.where())
        if n < 0:
            it.raise_('ValueError', 'negative dimensions are not allowed')
        return (n,)
    out = []
    for x in it.iterate(v):
        x = it.res(x)
        if isinstance(x, VNum) and x.k == 'float':
            it.raise_('TypeError', "'float' object cannot be interpreted as an integer")
        n = const_int(x)
        if n is None:
            raise Unsupported('symbolic array shape', it.where())
        if n < 0:
            it.raise_('ValueError', 'negative dimensions are not allowed')
        out.append(n)
    return tuple(out)


def copy_arr(it, a, jx=None, keep=True):
    return it.mkarr(it.cells(a), a.shape, a.dt, a.jx if keep else jx, a.matrix)


# ------------------------------------------------------------------ stores
def store(it, arr, value):
    """in-place write of a whole view"""
    if arr.jx is not None:
        it.raise_('TypeError', 'JAX arrays are immutable')
    cs, sh, dts, j = nested(it, value)
    if j == 'traced':
        it.event('concretize', what='traced value stored into a numpy array')
        it.raise_('TypeError', 'TracerArrayConversionError')
    if any(c is None for c in cs):
        if arr.dt in ('float64', 'float32'):
            cs = [NAN if c is None else c for c in cs]
        else:
            it.raise_('TypeError', 'cannot store None')
    if sh == () and False:
        pass
    elif sh != arr.shape:
        # leading ones may be dropped
        s2 = sh
        while len(s2) > len(arr.shape) and s2 and s2[0] == 1:
            s2 = s2[1:]
        b = _can_broadcast(s2, arr.shape)
        if not b:
            it.raise_('ValueError', f'could not broadcast input array from shape {sh} into shape {arr.shape}')
        cs = expand(cs, s2, arr.shape)
    buf = it.deref(arr.buf)
    e = list(buf.e)
    for i, c in zip(arr.idx, cs):
        e[i] = cast(c, arr.dt)
    it.st.heap[arr.buf] = HBuf(e)
    it.event('write', obj=arr.buf, idx=arr.idx)


def _can_broadcast(s, target):
    if len(s) > len(target):
        return False
    for a, b in zip(reversed(s), reversed(target)):
        if a != 1 and a != b:
            return False
    return True


# ------------------------------------------------------------------ indexing
def index_view(it, a, k):
    """basic / advanced indexing: ('view', VArr) | ('copy', VArr) | ('sel', terms) for symbolic integer indices"""
    keys = list(k.items) if isinstance(k, VTuple) else [k]
    keys = [it.res(x) for x in keys]
    nk = sum(1 for x in keys if x is not None and x is not Ellipsis)
    if any(x is Ellipsis for x in keys):
        i = [n for n, x in enumerate(keys) if x is Ellipsis][0]
        keys[i:i + 1] = [VSlice(None, None, None)] * (a.ndim - nk)
    # a boolean mask
    if len(keys) == 1 and isinstance(keys[0], VArr) and keys[0].dt == 'bool':
        return ('mask', keys[0])
    used = sum(1 for x in keys if x is not None)
    if used > a.ndim:
        it.raise_('IndexError', f'too many indices for array: array is {a.ndim}-dimensional')
    keys += [VSlice(None, None, None)] * (a.ndim - used)
    strides = []
    s = 1
    for d in reversed(a.shape):
        strides.append(s)
        s *= d
    strides.reverse()
    axes = []        # list of (positions list | None for newaxis, keepdim, symbolic)
    ax = 0
    symb = False
    adv = multi = False
    advs = {}
    for x in keys:
        if x is None:
            axes.append(([0], True, None, 0))
            continue
        n = a.shape[ax]
        st = strides[ax]
        if isinstance(x, VSlice):
            axes.append(([p * st for p in slice_range(it, x, n)], True, None, ax))
        elif isinstance(x, (VNum, VBool)) and not (isinstance(x, VBool)):
            if x.k == 'float':
                it.raise_('IndexError', 'only integers, slices, ellipsis, None and integer or boolean arrays are valid indices')
            c = const_int(x)
            if c is not None:
                if not -n <= c < n:
                    if a.jx is not None:
                        raise Unsupported('JAX index out of bounds', it.where())
                    it.raise_('IndexError', f'index {c} is out of bounds for axis {ax} with size {n}')
                axes.append(([(c % n) * st], False, None, ax))
            else:
                symb = True
                axes.append(([p * st for p in range(n)], False, x.t, ax))
        elif isinstance(x, VBool):
            raise Unsupported('boolean scalar index', it.where())
        elif isinstance(x, str):
            it.raise_('IndexError', 'only integers, slices, ellipsis, None and integer or boolean arrays are valid indices')
        else:
            cs, sh, dts, j = nested(it, x)
            if dts == {'bool'}:
                sel = []
                for p, c in enumerate(cs):
                    c = it.decide(c)
                    if c is TRUE:
                        sel.append(p)
                    elif c is not FALSE:
                        raise NeedSplit(c)
                axes.append(([p * st for p in sel], True, None, ax))
            else:
                ps = []
                for c in cs:
                    v = as_term(c).const()
                    if v is None or v.denominator != 1:
                        raise Unsupported('symbolic index array', it.where())
                    v = int(v)
                    if not -n <= v < n:
                        if a.jx is not None:
                            raise Unsupported('JAX index out of bounds', it.where())
                        it.raise_('IndexError', f'index {v} is out of bounds for axis {ax} with size {n}')
                    ps.append((v % n) * st)
                axes.append((ps, True, None, ax))
                if len(sh) != 1:
                    multi = True
                advs[len(axes) - 1] = tuple(sh)
            if len(axes) - 1 not in advs:
                advs[len(axes) - 1] = (len(axes[-1][0]),)
            adv = True
        ax += 1
    if symb and adv:
        raise Unsupported('symbolic index next to an index array', it.where())
    if symb:
        return ('sym', axes)
    if adv and (multi or len(advs) + sum(1 for _, keep, _, _ in axes if not keep) > 1):
        return ('copy', index_arrays(it, a, axes, advs))
    shape = tuple(len(p) for p, keep, _, _ in axes if keep)
    idx = [a.idx[sum(t)] for t in itertools.product(*[p for p, _, _, _ in axes])]
    if a.matrix and len(shape) == 1:
        # indexing a matrix keeps two dimensions
        shape = (1, shape[0]) if not axes[0][1] else (shape[0], 1)
    return ('copy' if adv else 'view', VArr(a.buf, idx, shape, a.dt, a.jx, a.matrix and len(shape) == 2))


def index_arrays(it, a, axes, advs):
    """several index arrays (integers count as such): broadcast against each other, the other axes in between or behind"""
    if a.matrix and not all(keep for _, keep, _, _ in axes):
        raise Unsupported('index arrays into a matrix', it.where())
    for i, (_, keep, _, _) in enumerate(axes):
        if not keep:
            advs[i] = ()
    order = sorted(advs)
    try:
        S = functools.reduce(lambda x, y: _bshape(x, y), [advs[i] for i in order])
    except ValueError:
        it.raise_('IndexError', 'shape mismatch: indexing arrays could not be broadcast together')
    flat = {i: expand(axes[i][0], advs[i], S) for i in order}
    offs = [sum(flat[i][j] for i in order) for j in range(math.prod(S))]
    rest = [i for i in range(len(axes)) if i not in advs]
    adjacent = order == list(range(order[0], order[-1] + 1))
    lead = [i for i in rest if i < order[0]] if adjacent else []
    tail = [i for i in rest if i not in lead]
    shape = tuple(len(axes[i][0]) for i in lead) + S + tuple(len(axes[i][0]) for i in tail)
    idx = [a.idx[sum(t)] for t in itertools.product(*([axes[i][0] for i in lead] + [offs] + [axes[i][0] for i in tail]))]
    if a.matrix:
        if len(shape) != 1:
            raise Unsupported('index arrays into a matrix', it.where())
        return VArr(a.buf, idx, (1,) + shape, a.dt, a.jx, True)
    return VArr(a.buf, idx, shape, a.dt, a.jx)


def _bshape(x, y):
    n = max(len(x), len(y))
    x, y = (1,) * (n - len(x)) + tuple(x), (1,) * (n - len(y)) + tuple(y)
    out = []
    for p, q in zip(x, y):
        if p != q and 1 not in (p, q):
            raise ValueError
        out.append(q if p == 1 else p)
    return tuple(out)


def slice_range(it, s, n):
    out = []
    for x in (s.lo, s.hi, s.st):
        x = it.res(x) if x is not None else None
        if x is None:
            out.append(None)
            continue
        c = const_int(x)
        if c is None:
            if isinstance(x, VNum) and x.k == 'float':
                it.raise_('TypeError', 'slice indices must be integers or None or have an __index__ method')
            raise Unsupported('symbolic slice', it.where())
        out.append(c)
    return list(range(n))[slice(*out)]


def getitem(it, a, k):
    if isinstance(k, VRef) and isinstance(it.deref(k), HList):
        k = array_of(it, k)
    r = index_view(it, a, k)
    if r[0] == 'mask':
        m = r[1]
        if m.shape != a.shape[:m.ndim]:
            it.raise_('IndexError', 'boolean index did not match indexed array')
        if m.ndim != a.ndim:
            raise Unsupported('partial boolean mask')
        keep = []
        for i, c in enumerate(it.cells(m)):
            c = it.decide(c)
            if c is TRUE:
                keep.append(i)
            elif c is not FALSE:
                raise NeedSplit(c)
        cs = it.cells(a)
        return it.mkarr([cs[i] for i in keep], (len(keep),), a.dt, a.jx)
    if r[0] == 'sym':
        return sym_read(it, a, r[1])
    v = r[1]
    if v.shape == () and not (isinstance(k, VTuple) and any(x is Ellipsis for x in k.items)):
        c = it.cells(v)[0]
        if a.dt == 'bool':
            return VBool(c, True, a.jx)
        return VNum(c, 'int' if a.dt == 'int64' else 'float', a.dt, a.jx)
    if r[0] == 'copy':
        return it.mkarr(it.cells(v), v.shape, v.dt, v.jx, v.matrix)
    if v.jx is not None:
        return it.mkarr(it.cells(v), v.shape, v.dt, v.jx)
    return v


def sym_read(it, a, axes):
    """table lookup with data-dependent integer indices (records the bounds obligation)"""
    if any(keep for _, keep, _, _ in axes):
        # rows selected by a symbolic index: element-wise select over the symbolic axes
        pass
    cs = it.deref(a.buf).e
    symaxes = [(i, ax) for i, ax in enumerate(axes) if ax[2] is not None]
    for i, (ps, keep, t, axn) in symaxes:
        it.event('index', term=t, size=len(ps), obj=a.buf)
    outshape = tuple(len(p) for p, keep, t, _ in axes if keep)
    keepaxes = [i for i, ax in enumerate(axes) if ax[1]]
    out = []
    shape = tuple(len(axes[i][0]) for i, _ in symaxes)
    terms = []
    for i, (ps, keep, t, _) in symaxes:
        n = len(ps)
        # negative indices wrap around
        neg = it.decide(tm.lt0(t))
        if neg is TRUE:
            t = t + T(n)
        elif neg is not FALSE:
            t = tm.ite(neg, t + T(n), t)
        terms.append(t)
    for kc in itertools.product(*[axes[i][0] for i in keepaxes]):
        fixed = 0
        for i, ax in enumerate(axes):
            if ax[2] is None and not ax[1]:
                fixed += ax[0][0]
        fixed += sum(kc)
        elems = []
        for sc in itertools.product(*[axes[i][0] for i, _ in symaxes]):
            elems.append(as_term(cs[a.idx[fixed + sum(sc)]]))
        out.append(select_clean(elems, shape, terms))
    return wrap(it, out, outshape, a.dt, a.jx, True)


def select_clean(elems, shape, terms):
    return select_ite(elems, shape, list(terms))


def select_ite(elems, shape, idx):
    """push lookups into gated indices"""
    for n, t in enumerate(idx):
        a = tm._ite_in(t)
        if a is not None and t.den.const() == 1:
            k = tm.atom_key(a)
            i1, i2 = list(idx), list(idx)
            i1[n] = tm.subst_atom(t, a, k[2])
            i2[n] = tm.subst_atom(t, a, k[3])
            return tm.ite(k[1], select_ite(elems, shape, i1), select_ite(elems, shape, i2))
        c = t.const()
        if c is not None and not (c.denominator == 1 and -shape[n] <= c < shape[n]):
            return NAN      # recorded as an out-of-bounds event; the value is meaningless
    return tm.select(elems, shape, idx)


def setitem(it, a, k, v):
    if a.jx is not None:
        it.raise_('TypeError', 'JAX arrays are immutable and do not support in-place item assignment')
    if isinstance(k, VRef) and isinstance(it.deref(k), HList):
        k = array_of(it, k)
    r = index_view(it, a, k)
    if r[0] == 'mask':
        m = r[1]
        if m.shape != a.shape[:m.ndim] or m.ndim != a.ndim:
            it.raise_('IndexError', 'boolean index did not match indexed array')
        mc = it.cells(m)
        old = it.cells(a)
        o = opnd_t(it, v)
        if o.shape == ():
            new = [o.c[0]] * len(old)
        elif all(it.decide(c) in (TRUE, FALSE) for c in mc):
            src = iter(o.c)
            n = sum(1 for c in mc if it.decide(c) is TRUE)
            if len(o.c) != n:
                it.raise_('ValueError', 'NumPy boolean array indexing assignment cannot assign')
            new = [next(src) if it.decide(c) is TRUE else old[i] for i, c in enumerate(mc)]
        else:
            raise Unsupported('masked assignment of a vector', it.where())
        cells = [cell_ite(c, cast(x, a.dt), y) for c, x, y in zip(mc, new, old)]
        buf = list(it.deref(a.buf).e)
        for i, c in zip(a.idx, cells):
            buf[i] = c
        it.st.heap[a.buf] = HBuf(buf)
        it.event('write', obj=a.buf, idx=a.idx)
        return
    if r[0] == 'sym':
        axes = r[1]
        o = opnd_t(it, v)
        symaxes = [i for i, ax in enumerate(axes) if ax[2] is not None]
        if any(ax[1] for ax in axes) or o.shape != ():
            raise Unsupported('block store at a symbolic index', it.where())
        buf = list(it.deref(a.buf).e)
        for i in symaxes:
            it.event('index', term=axes[i][2], size=len(axes[i][0]), obj=a.buf)
        for t in itertools.product(*[range(len(ax[0])) for ax in axes]):
            c = TRUE
            for i in symaxes:
                c = c_and(c, tm.eq0(axes[i][2] - T(t[i])))
            p = a.idx[sum(ax[0][q] for ax, q in zip(axes, t))]
            buf[p] = cell_ite(c, cast(o.c[0], a.dt), buf[p])
        it.st.heap[a.buf] = HBuf(buf)
        it.event('write', obj=a.buf, idx=a.idx)
        return
    view = r[1]
    store(it, view, v)


def cell_ite(c, x, y):
    if isinstance(x, Cond):
        return tm.c_ite(c, x, as_cond(y))
    return tm.ite(c, x, as_term(y))


# ------------------------------------------------------------------ linear algebra
def dot_cells(xs, ys):
    acc = tm.ZERO
    for x, y in zip(xs, ys):
        acc = acc + as_term(x) * as_term(y)
    return acc


def matmul(it, a, b, xp=None):
    oa, ob = opnd_t(it, a), opnd_t(it, b)
    if xp == 'np' and (oa.jx == 'traced' or ob.jx == 'traced'):
        it.event('concretize', what='numpy function applied to a traced value')
        it.raise_('TypeError', 'TracerArrayConversionError')
    if oa.shape == () or ob.shape == ():
        it.raise_('ValueError', 'matmul: Input operand does not have enough dimensions')
    if len(oa.shape) > 2 or len(ob.shape) > 2:
        raise Unsupported('matmul of stacked matrices', it.where())
    sa = oa.shape if len(oa.shape) == 2 else (1,) + oa.shape
    sb = ob.shape if len(ob.shape) == 2 else ob.shape + (1,)
    if sa[1] != sb[0]:
        it.raise_('ValueError', f'matmul: Input operand 1 has a mismatch in its core dimension 0 ({oa.shape} @ {ob.shape})')
    out = []
    for i in range(sa[0]):
        row = oa.c[i * sa[1]:(i + 1) * sa[1]]
        for j in range(sb[1]):
            out.append(dot_cells(row, ob.c[j::sb[1]]))
    shape = ()
    if len(oa.shape) == 2:
        shape += (sa[0],)
    if len(ob.shape) == 2:
        shape += (sb[1],)
    mat = oa.matrix or ob.matrix
    if mat and len(shape) == 1:
        shape = (1,) + shape
    jx = jmax(oa.jx, ob.jx)
    if xp == 'np':
        jx = None
    elif xp == 'jax':
        jx = jmax('jax', jx)
    dt = promote([oa, ob])
    return wrap(it, out, shape, dt, jx, True, mat)


def dot(it, a, b, xp=None):
    oa, ob = opnd_t(it, a), opnd_t(it, b)
    if oa.shape == () or ob.shape == ():
        return arith(it, 'Mult', a, b, xp)
    return matmul(it, a, b, xp)


def cross(it, a, b, xp=None):
    oa, ob = opnd_t(it, a), opnd_t(it, b)
    if oa.shape == (2,) and ob.shape == (2,):
        x, y = [as_term(c) for c in oa.c], [as_term(c) for c in ob.c]
        return wrap(it, [x[0] * y[1] - x[1] * y[0]], (), promote([oa, ob]), jmax(oa.jx, ob.jx), True)
    if oa.shape != (3,) or ob.shape != (3,):
        raise Unsupported('cross product of stacked vectors', it.where())
    x, y = [as_term(c) for c in oa.c], [as_term(c) for c in ob.c]
    out = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]
    return wrap(it, out, (3,), promote([oa, ob]), jmax(oa.jx, ob.jx, 'jax' if xp == 'jax' else None), True)


def det_cells(m, n):
    if n == 1:
        return m[0]
    acc = tm.ZERO
    for j in range(n):
        if m[j].is_zero():
            continue
        minor = [m[r * n + c] for r in range(1, n) for c in range(n) if c != j]
        acc = acc + m[j] * det_cells(minor, n - 1) * T(-1 if j % 2 else 1)
    return acc


def inv_cells(m, n):
    d = det_cells(m, n)
    out = []
    for i in range(n):
        for j in range(n):
            minor = [m[r * n + c] for r in range(n) if r != j for c in range(n) if c != i]
            cof = det_cells(minor, n - 1) if n > 1 else tm.ONE
            out.append(cof * T(-1 if (i + j) % 2 else 1) / d)
    return out


# ------------------------------------------------------------------ reductions
def reduce_axis(it, a, axis, f, dt=None, keepdims=False, xp=None):
    """f: list of cells -> cell"""
    o = opnd_t(it, a)
    if xp == 'np' and o.jx == 'traced':
        it.event('concretize', what='numpy function applied to a traced value')
        it.raise_('TypeError', 'TracerArrayConversionError')
    jx = None if xp == 'np' else jmax(o.jx, 'jax' if xp == 'jax' else None)
    if axis is not None:
        axis = it.res(axis)
    rdt = dt or o.dt
    if axis is None:
        c = f(list(o.c))
        sh = (1,) * len(o.shape) if keepdims else ()
        return wrap(it, [c], sh, rdt, jx, True)
    if isinstance(axis, VTuple):
        raise Unsupported('reduction over several axes', it.where())
    ax = const_int(axis)
    n = len(o.shape)
    if ax is None or not -n <= ax < n:
        it.raise_('ValueError', 'axis out of bounds')
    ax %= n
    out = []
    oth = [range(d) for i, d in enumerate(o.shape) if i != ax]
    st = []
    s = 1
    for d in reversed(o.shape):
        st.append(s)
        s *= d
    st.reverse()
    ost = [x for i, x in enumerate(st) if i != ax]
    for ix in itertools.product(*oth):
        base = sum(p * q for p, q in zip(ix, ost))
        out.append(f([o.c[base + k * st[ax]] for k in range(o.shape[ax])]))
    shape = tuple(d for i, d in enumerate(o.shape) if i != ax)
    if keepdims:
        shape = tuple(1 if i == ax else d for i, d in enumerate(o.shape))
    return wrap(it, out, shape, rdt, jx, True)


def fsum(cs):
    acc = tm.ZERO
    for c in cs:
        acc = tadd(acc, as_term(c))
    return acc


def fprod(cs):
    acc = tm.ONE
    for c in cs:
        acc = acc * as_term(c)
    return acc


def fmax(cs):
    acc = as_term(cs[0])
    for c in cs[1:]:
        acc = nanprop(tmax)(acc, as_term(c))
    return acc


def fmin(cs):
    acc = as_term(cs[0])
    for c in cs[1:]:
        acc = nanprop(tmin)(acc, as_term(c))
    return acc


def fall(cs):
    return c_and(*[as_cond(c) for c in cs]) if cs else TRUE


def fany(cs):
    return c_or(*[as_cond(c) for c in cs]) if cs else FALSE


def nonempty(it, cs, f, what):
    if not cs:
        it.raise_('ValueError', f'zero-size array to reduction operation {what}')
    return f(cs)


# ------------------------------------------------------------------ shape manipulation
def reshape(it, a, shape, xp=None):
    o = opnd_t(it, a)
    n = len(o.c)
    if shape.count(-1) == 1:
        k = size_of([s for s in shape if s != -1])
        if k == 0 or n % k:
            it.raise_('ValueError', f'cannot reshape array of size {n} into shape {shape}')
        shape = tuple(n // k if s == -1 else s for s in shape)
    if size_of(shape) != n:
        it.raise_('ValueError', f'cannot reshape array of size {n} into shape {shape}')
    a = it.res(a)
    if isinstance(a, VArr) and a.jx is None and xp != 'jax':
        return VArr(a.buf, a.idx, shape, a.dt, None)
    return it.mkarr(o.c, shape, o.dt, o.jx or ('jax' if xp == 'jax' else None))


def transpose(it, a, axes=None):
    n = a.ndim
    perm = list(range(n))[::-1] if axes is None else list(axes)
    st = []
    s = 1
    for d in reversed(a.shape):
        st.append(s)
        s *= d
    st.reverse()
    shape = tuple(a.shape[p] for p in perm)
    idx = [a.idx[sum(i * st[p] for i, p in zip(ix, perm))] for ix in itertools.product(*[range(d) for d in shape])]
    v = VArr(a.buf, idx, shape, a.dt, a.jx, a.matrix)
    if a.jx is not None:
        return it.mkarr(it.cells(v), shape, a.dt, a.jx)
    return v


def concat(it, arrs, axis, xp=None):
    ops = [opnd_t(it, x) for x in arrs]
    if not ops:
        it.raise_('ValueError', 'need at least one array to concatenate')
    if xp == 'np' and any(o.jx == 'traced' for o in ops):
        it.event('concretize', what='numpy function applied to a traced value')
        it.raise_('TypeError', 'TracerArrayConversionError')
    n = len(ops[0].shape)
    if n == 0:
        it.raise_('ValueError', 'zero-dimensional arrays cannot be concatenated')
    if any(len(o.shape) != n for o in ops):
        it.raise_('ValueError', 'all the input array dimensions must match')
    axis %= n
    for o in ops[1:]:
        if any(o.shape[i] != ops[0].shape[i] for i in range(n) if i != axis):
            it.raise_('ValueError', 'all the input array dimensions except for the concatenation axis must match exactly')
    total = sum(o.shape[axis] for o in ops)
    shape = tuple(total if i == axis else d for i, d in enumerate(ops[0].shape))
    outer = size_of(shape[:axis])
    inner = size_of(shape[axis + 1:])
    out = []
    for i in range(outer):
        for o in ops:
            w = o.shape[axis] * inner
            out += o.c[i * w:(i + 1) * w]
    dt = promote(ops)
    jx = None if xp == 'np' else jmax(*[o.jx for o in ops], 'jax' if xp == 'jax' else None)
    return it.mkarr([cast(c, dt) for c in out], shape, dt, jx)


def at_least(it, v, nd):
    o = opnd_t(it, v)
    if len(o.shape) >= nd:
        return v
    if nd == 1:
        return it.mkarr(o.c, (1,), o.dt, o.jx)
    sh = (1, 1) if o.shape == () else (1,) + o.shape
    return it.mkarr(o.c, sh, o.dt, o.jx)


def clip(it, x, lo, hi, xp=None):
    vals = [x]
    lo, hi = it.res(lo) if lo is not None else None, it.res(hi) if hi is not None else None
    if lo is None and hi is None:
        it.raise_('ValueError', 'One of max or min must be given')
    if lo is None:
        return ew(it, nanprop(tmin), [x, hi], None, xp)
    if hi is None:
        return ew(it, nanprop(tmax), [x, lo], None, xp)
    return ew(it, tclip, [x, lo, hi], None, xp)


def linspace_cells(a, b, n, endpoint=True):
    if n == 1:
        return [a]
    d = n - 1 if endpoint else n
    return [a + (b - a) * T(Fraction(i, d)) for i in range(n)]
