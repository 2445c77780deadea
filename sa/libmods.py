"""Namespaces of the modelled libraries (standard library, numpy, jax, scipy, pint, pydantic)."""
from __future__ import annotations

import ast
from fractions import Fraction

from . import terms as tm
from . import npmodel as nm
from . import libphys, containers, pydmodel
from .terms import T, TRUE, FALSE, c_and, c_or, c_not
from .values import *


def fnb(name, f, **attrs):
    return VBuiltin(name, f, dict(attrs))


SUBMODULES = {'numpy.' + n for n in ('polynomial', 'random', 'fft', 'ma', 'testing', 'lib', 'core', 'char', 'ctypeslib')} | \
             {'scipy.' + n for n in ('interpolate', 'constants', 'signal', 'special', 'sparse', 'stats', 'ndimage', 'fft', 'cluster', 'io', 'misc')}


class Mods:
    def __init__(self, it, ext):
        self.it, self.ext = it, ext
        self.cache = {}
        self.b = it.builtins
        self.typing_ = {}
        self.pyd = pydmodel.Pydantic(it, ext)

    # ------------------------------------------------------------------ module access
    def module(self, name):
        if name in self.cache:
            return self.cache[name]
        m = self.make(name)
        self.cache[name] = m
        return m

    def ns(self, name, d, strict=False):
        def get(a):
            if a in d:
                return d[a] if d[a] is not None else NONE
            sub = self.module(name + '.' + a)
            if sub is not None:
                return sub
            if strict:
                return None
            return self.unknown(name + '.' + a)
        return VExtModule(name, get)

    def unknown(self, qn):
        def f(i, a, k):
            raise Unsupported(f'call of unmodelled {qn}', i.where())
        return VBuiltin(qn, f, {'unknown': True})

    def make(self, name):
        h = getattr(self, 'm_' + name.replace('.', '_'), None)
        if h is not None:
            return h()
        top = name.split('.')[0]
        if name == top and (top != 'jax') or (name != top and name.startswith(('numpy.', 'scipy.', 'pint.')) and top + '.' + name.split('.')[1] in SUBMODULES):
            return VExtModule(name, lambda a: self.unknown(f'{name}.{a}'))
        return None

    def m_bisect(self):
        def side(right):
            def f(i, a, k):
                if len(a) > 2 or k:
                    raise Unsupported('arguments of bisect', i.where())
                r = tm.ZERO
                x = nm.as_term(nm.opnd_t(i, a[1]).c[0])
                for q in i.iterate(a[0]):
                    q = nm.as_term(nm.opnd_t(i, q).c[0])
                    r = r + tm.ite(c_not(tm.lt0(x - q)) if right else tm.lt0(q - x), tm.ONE, tm.ZERO)
                return VNum(r, 'int')
            return VBuiltin('bisect', f)
        return self.ns('bisect', {'bisect': side(True), 'bisect_right': side(True), 'bisect_left': side(False)})

    # ------------------------------------------------------------------ numpy / jax / scipy / pint
    def m_numpy(self):
        return self.ns('numpy', self.ext.nlib.ns)

    def m_numpy_linalg(self):
        return self.ns('numpy.linalg', self.ext.nlib.lin)

    def m_numpy_polynomial(self):
        return VExtModule('numpy.polynomial', lambda a: self.m_numpy_polynomial_polynomial() if a == 'polynomial' else self.unknown('numpy.polynomial.' + a))

    def m_numpy_polynomial_polynomial(self):
        def polyval(i, a, k):
            if len(a) != 2 or k:
                raise Unsupported('arguments of polyval', i.where())
            cs = nm.opnd_t(i, a[1])
            if len(cs.shape) != 1:
                raise Unsupported('polyval of several polynomials', i.where())
            return i.call(self.ext.nlib.ns['polyval'], [VArrRev(i, cs), a[0]], {})

        def VArrRev(i, cs):
            return i.mkarr(list(cs.c)[::-1], cs.shape, cs.dt, False)
        return self.ns('numpy.polynomial.polynomial', {'polyval': fnb('polyval', polyval)})

    def m_numpy_typing(self):
        return self.ns('numpy.typing', {'ArrayLike': self.ty('Any'), 'NDArray': self.ty('NDArray'), 'DTypeLike': self.ty('Any')})

    def m_jax(self):
        if not self.it.jax_present:
            return None
        it = self.it

        def ident(i, a, k):
            return a[0]

        def jit(i, a, k):
            if not a:
                return VBuiltin('jit', lambda i2, a2, k2: jit(i2, a2, k))
            return a[0]
        cfg = self.ns('jax.config', {'update': fnb('update', lambda i, a, k: None)})
        return self.ns('jax', {'Array': self.ext.jaxarray, 'jit': fnb('jit', jit), 'device_get': fnb('device_get', ident),
                               'device_put': fnb('device_put', ident), 'config': cfg, 'named_call': fnb('named_call', ident),
                               'block_until_ready': fnb('bur', ident), 'checkpoint': fnb('checkpoint', ident)})

    def m_jax_numpy(self):
        if not self.it.jax_present:
            return None
        d = dict(self.ext.jlib.ns)
        d['ndarray'] = self.ext.jaxarray
        return self.ns('jax.numpy', d)

    def m_jax_numpy_linalg(self):
        if not self.it.jax_present:
            return None
        return self.ns('jax.numpy.linalg', self.ext.jlib.lin)

    def m_jax_experimental(self):
        return self.ns('jax.experimental', {}) if self.it.jax_present else None

    def m_jax_experimental_ode(self):
        if not self.it.jax_present:
            return None
        return self.ns('jax.experimental.ode', {'odeint': fnb('odeint', lambda i, a, k: libphys.odeint(i, self.ext, a, k))})

    def m_jax_lax(self):
        if not self.it.jax_present:
            return None

        def cond(i, a, k):
            j = self.ext.jlib
            p = nm.opnd_t(i, i.res(a[0]))
            x = i.call(a[1], a[3:], {})
            y = i.call(a[2], a[3:], {})
            return i.call(j.ns['where'], [a[0], x, y], {})
        return self.ns('jax.lax', {'cond': fnb('cond', cond)})

    def m_scipy(self):
        return self.ns('scipy', {})

    def m_scipy_integrate(self):
        return self.ns('scipy.integrate', {'solve_ivp': fnb('solve_ivp', lambda i, a, k: libphys.solve_ivp(i, self.ext, a, k))})

    def m_scipy_linalg(self):
        it = self.it

        def block_diag(i, a, k):
            os = [nm.opnd_t(i, x) for x in a]
            shapes = [o.shape if len(o.shape) == 2 else (1, len(o.c)) for o in os]
            rows, cols = sum(s[0] for s in shapes), sum(s[1] for s in shapes)
            out = [tm.ZERO] * (rows * cols)
            r0 = c0 = 0
            for o, (n, m) in zip(os, shapes):
                for r in range(n):
                    for c in range(m):
                        out[(r0 + r) * cols + c0 + c] = o.c[r * m + c]
                r0, c0 = r0 + n, c0 + m
            return it.mkarr(out, (rows, cols), 'float64' if any(o.dt.startswith('float') for o in os) else os[0].dt, False)
        d = {k: v for k, v in self.ext.nlib.lin.items() if k in ('inv', 'det', 'norm', 'solve')}
        d['block_diag'] = fnb('block_diag', block_diag)
        return self.ns('scipy.linalg', d)

    def m_scipy_spatial(self):
        return self.ns('scipy.spatial', {})

    def m_scipy_spatial_transform(self):
        return self.ns('scipy.spatial.transform', {'Rotation': self.ext.rot.cls})

    def m_scipy_optimize(self):
        return self.ns('scipy.optimize', {})

    def m_pint(self):
        return self.ext.pint.module

    def m_pint_errors(self):
        return self.ext.pint.module.get('errors')

    def m_pydantic(self):
        return self.ns('pydantic', self.pyd.ns)

    def m_pydantic_functional_validators(self):
        return self.ns('pydantic.functional_validators', self.pyd.ns)

    # ------------------------------------------------------------------ math
    def m_math(self):
        d = {}
        L = self.ext.nlib.ns

        def num(i, v):
            from .builtinsmodel import num as n_
            v = i.res(v)
            if getattr(v, 'jx', None) == 'traced':
                i.event('concretize', what='math function of a traced value')
                i.raise_('TypeError', 'ConcretizationTypeError')
            if isinstance(v, (str,)) or v is None:
                i.raise_('TypeError', 'must be real number')
            if isinstance(v, VNative) and v.kind == 'quantity':
                v = i.res(self.ext.pint.to_dimensionless(i, v))
            return n_(i, v)

        def lift(name, npname=None, n=1, dom=None):
            def f(i, a, k):
                ts = [VNum(num(i, x), 'float') for x in a]
                if dom is not None:
                    dom(i, ts)
                r = i.res(i.call(L[npname or name], ts, {}))
                return VNum(nm.opnd(i, r).c[0], 'float')
            d[name] = VBuiltin('math.' + name, f)

        def sqdom(i, ts):
            if i.decide(tm.lt0(ts[0].t)) is TRUE:
                i.raise_('ValueError', 'math domain error')
        for n in ('sin', 'cos', 'tan', 'exp', 'tanh', 'sinh', 'cosh', 'atan'):
            lift(n, {'atan': 'arctan'}.get(n))
        lift('sqrt', dom=sqdom)
        lift('log10')
        lift('log2')
        lift('cbrt')
        lift('expm1')
        lift('log1p')

        def log(i, a, k):
            t = tm.fn('log', num(i, a[0]))
            if len(a) > 1:
                b = num(i, a[1]).const()
                c = num(i, a[0]).const()
                if b == 2 or b == 10:
                    t = tm.fn(f'log{b}', num(i, a[0]))
                else:
                    t = t / tm.fn('log', num(i, a[1]))
            return VNum(t, 'float')
        d['log'] = VBuiltin('math.log', log)

        def ints_(i, a):
            r = [num(i, x).const() for x in a]
            if any(x is None or x.denominator != 1 for x in r):
                raise Unsupported('integer function of a symbolic value', i.where())
            return [int(x) for x in r]
        import math as _m
        for n in ('gcd', 'lcm', 'factorial', 'comb', 'perm', 'isqrt'):
            d[n] = VBuiltin('math.' + n, lambda i, a, k, n=n: VNum(T(getattr(_m, n)(*ints_(i, a))), 'int'))

        def modf(i, a, k):
            t = num(i, a[0])
            w = nm.trunc(t)
            return VTuple([VNum(t - w, 'float'), VNum(w, 'float')])
        d['modf'] = VBuiltin('math.modf', modf)
        d['sumprod'] = VBuiltin('math.sumprod', lambda i, a, k: i.call(i.builtins['sum'], [i.mklist([i.binop('Mult', x, y) for x, y in zip(i.iterate(a[0]), i.iterate(a[1]))])], {}))

        def remainder(i, a, k):
            x, y = num(i, a[0]), num(i, a[1])
            return VNum(x - y * tm.fn('round', x / y), 'float')
        d['remainder'] = VBuiltin('math.remainder', remainder)
        lift('asin', 'arcsin')
        lift('acos', 'arccos')
        lift('atan2', 'arctan2', 2)
        lift('hypot', 'hypot', 2)
        lift('fabs', 'abs')
        lift('radians', 'deg2rad')
        lift('degrees', 'rad2deg')
        lift('copysign', 'copysign', 2)
        lift('fmod', 'fmod', 2)
        lift('pow', 'power', 2)
        d['pi'] = VNum(tm.PI, 'float')
        d['tau'] = VNum(tm.PI * T(2), 'float')
        d['e'] = L['e'] if 'e' in L else VNum(tm.sym('$e', 'pos'), 'float')
        d['inf'] = VNum(T(float('inf')), 'float')
        d['nan'] = VNum(T(float('nan')), 'float')

        def rnd(fname):
            def f(i, a, k):
                t = num(i, a[0])
                return VNum(tm.fn(fname, t), 'int')
            d[fname] = VBuiltin('math.' + fname, f)
        rnd('floor')
        rnd('ceil')

        def trunc(i, a, k):
            from .builtinsmodel import trunc as tr
            return VNum(tr(num(i, a[0])), 'int')
        d['trunc'] = VBuiltin('math.trunc', trunc)
        d['isnan'] = VBuiltin('math.isnan', lambda i, a, k: VBool(nm.isnan(num(i, a[0]))))
        d['isinf'] = VBuiltin('math.isinf', lambda i, a, k: VBool(nm.isinf(num(i, a[0]))))
        d['isfinite'] = VBuiltin('math.isfinite', lambda i, a, k: VBool(c_and(c_not(nm.isnan(num(i, a[0]))), c_not(nm.isinf(num(i, a[0]))))))

        def fsum(i, a, k):
            s = tm.ZERO
            for x in i.iterate(a[0]):
                s = s + num(i, x)
            return VNum(s, 'float')
        d['fsum'] = VBuiltin('math.fsum', fsum)

        def prod(i, a, k):
            s = k.get('start', I(1))
            for x in i.iterate(a[0]):
                s = i.binop('Mult', s, x)
            return s
        d['prod'] = VBuiltin('math.prod', prod)

        def isclose(i, a, k):
            x, y = num(i, a[0]), num(i, a[1])
            rt = num(i, k['rel_tol']) if 'rel_tol' in k else T(Fraction(1, 10**9))
            at = num(i, k['abs_tol']) if 'abs_tol' in k else T(0)
            return VBool(c_not(tm.lt0(tm.tmax(rt * tm.tmax(tm.absv(x), tm.absv(y)), at) - tm.absv(x - y))))
        d['isclose'] = VBuiltin('math.isclose', isclose)

        def dist(i, a, k):
            s = tm.ZERO
            for x, y in zip(i.iterate(a[0]), i.iterate(a[1])):
                dd = num(i, x) - num(i, y)
                s = s + dd * dd
            return VNum(tm.fn('sqrt', s), 'float')
        d['dist'] = VBuiltin('math.dist', dist)
        return self.ns('math', d)

    # ------------------------------------------------------------------ abc / functools / typing / ...
    def m_abc(self):
        def abstract(i, a, k):
            f = a[0]
            if isinstance(f, VFunc):
                f.abstract = True
                return f
            if isinstance(f, VProperty):
                return VProperty(f.fget, f.fset, f.fdel, True, f.cached)
            if isinstance(f, (VStatic, VClassMethod)) and isinstance(f.func, VFunc):
                f.func.abstract = True
            return f
        ab = VBuiltin('abstractmethod', abstract)
        return self.ns('abc', {'ABC': self.ext.ABC, 'ABCMeta': VBuiltin('ABCMeta', lambda i, a, k: None), 'abstractmethod': ab,
                               'abstractproperty': VBuiltin('abstractproperty', lambda i, a, k: VProperty(a[0], None, None, True))})

    def m_warnings(self):
        def warn(i, a, k):
            cat = a[1] if len(a) > 1 else k.get('category')
            i.event('warn', msg=a[0] if a else None, cat=cat)
        null = VBuiltin('catch_warnings', lambda i, a, k: self.nullctx(k))
        return self.ns('warnings', {'warn': VBuiltin('warn', warn), 'catch_warnings': null,
                                    'simplefilter': fnb('simplefilter', lambda i, a, k: i.event('filterwarnings')),
                                    'filterwarnings': fnb('filterwarnings', lambda i, a, k: i.event('filterwarnings')),
                                    'warn_explicit': VBuiltin('warn_explicit', warn)})

    def nullctx(self, k=None, val=None):
        c = self.ext.nullcls
        if '__enter__' not in c.nmethods:
            c.nmethods['__enter__'] = VBuiltin('__enter__', lambda i, a, k: i.deref(a[0]).attrs.get('val'), {'method': True})
            c.nmethods['__exit__'] = VBuiltin('__exit__', lambda i, a, k: B(False), {'method': True})
        return self.it.new(HInst(c, {'val': val}))

    def m_contextlib(self):
        return self.ns('contextlib', {'suppress': VBuiltin('suppress', lambda i, a, k: VNative('suppress', classes=[i.res(x) for x in a])),
                                      'nullcontext': VBuiltin('nullcontext', lambda i, a, k: self.nullctx(val=a[0] if a else None))})

    def m_functools(self):
        it = self.it

        def lru(i, a, k):
            def deco(f):
                g = f
                if isinstance(g, VFunc):
                    g.attrs['lru_cache'] = i.alloc(HDict({}))
                    g.attrs['cache_clear'] = VBuiltin('cache_clear', lambda i2, a2, k2: i2.st.heap.__setitem__(g.attrs['lru_cache'], HDict({})))
                    return g
                raise Unsupported('lru_cache of a non-function', i.where())
            if a and isinstance(i.res(a[0]), VFunc):
                return deco(i.res(a[0]))
            return VBuiltin('lru_cache', lambda i2, a2, k2: deco(i2.res(a2[0])))

        def wraps(i, a, k):
            w = i.res(a[0])

            def deco(i2, a2, k2):
                f = i2.res(a2[0])
                if isinstance(f, VFunc):
                    f.attrs['__wrapped__'] = w
                    f.attrs['wrapped_abstract'] = getattr(w, 'abstract', False)
                    if getattr(w, 'abstract', False):
                        f.abstract = True
                return f
            return VBuiltin('wraps', deco)

        def partial(i, a, k):
            return VPartial(i.res(a[0]), a[1:], k)

        def reduce(i, a, k):
            items = i.iterate(a[1])
            acc = a[2] if len(a) > 2 else items.pop(0)
            for x in items:
                acc = i.call(a[0], [acc, x], {})
            return acc

        def cached_property(i, a, k):
            return VProperty(a[0], cached=True)

        def total(i, a, k):
            cls = i.res(a[0])
            fr = i.deref(cls.ns)
            have = [n for n in ('__lt__', '__le__', '__gt__', '__ge__') if n in fr.vars]
            if have not in (['__lt__'], ['__gt__'], ['__le__'], ['__ge__']):
                raise Unsupported('total_ordering', i.where())
            base = have[0]

            def T_(i2, r):
                return i2.truth(r)
            lt = {'__lt__': lambda i2, x, y: T_(i2, i2.call(i2.getattr(x, '__lt__'), [y], {})),
                  '__ge__': lambda i2, x, y: c_not(T_(i2, i2.call(i2.getattr(x, '__ge__'), [y], {}))),
                  '__gt__': lambda i2, x, y: T_(i2, i2.call(i2.getattr(y, '__gt__'), [x], {})),
                  '__le__': lambda i2, x, y: c_not(T_(i2, i2.call(i2.getattr(y, '__le__'), [x], {})))}[base]
            new = {'__lt__': lambda i2, x, y: lt(i2, x, y), '__gt__': lambda i2, x, y: lt(i2, y, x),
                   '__le__': lambda i2, x, y: c_not(lt(i2, y, x)), '__ge__': lambda i2, x, y: c_not(lt(i2, x, y))}
            d = dict(fr.vars)
            for n, f in new.items():
                if n != base:
                    d[n] = VBuiltin(n, lambda i2, b, k2, f=f: VBool(f(i2, b[0], b[1])), {'method': True})
            i.st.heap[cls.ns] = fr.with_vars(d)
            return cls
        return self.ns('functools', {'lru_cache': VBuiltin('lru_cache', lru), 'cache': VBuiltin('cache', lru), 'wraps': VBuiltin('wraps', wraps),
                                     'partial': VBuiltin('partial', partial), 'reduce': VBuiltin('reduce', reduce),
                                     'cached_property': VBuiltin('cached_property', cached_property),
                                     'partialmethod': self.unknown('functools.partialmethod')})

    def ty(self, name, args=None):
        if args is None and name in self.typing_:
            return self.typing_[name]
        v = VNative('typing', name=name, args=args)
        if args is None:
            self.typing_[name] = v
        return v

    def m_typing(self):
        it = self.it

        def get(a):
            if a == 'TYPE_CHECKING':
                return B(False)
            if a == 'cast':
                return VBuiltin('cast', lambda i, x, k: x[1])
            if a in ('TypeVar', 'ParamSpec', 'NewType'):
                return VBuiltin(a, lambda i, x, k: self.ty('Any') if a != 'NewType' else VBuiltin('newtype', lambda i2, y, k2: y[0]))
            if a in ('overload', 'final', 'no_type_check', 'runtime_checkable', 'override'):
                return VBuiltin(a, lambda i, x, k: x[0])
            if a == 'NamedTuple':
                return self.namedtuple_cls()
            if a == 'get_type_hints':
                return self.unknown('typing.get_type_hints')
            return self.ty(a)
        return VExtModule('typing', get)

    m_typing_extensions = m_typing

    def m_collections_abc(self):
        return VExtModule('collections.abc', lambda a: self.ty(a))

    def m_types(self):
        return self.ns('types', {'ModuleType': self.b['module'], 'FunctionType': self.b['function'],
                                 'SimpleNamespace': self.simple_ns(), 'MappingProxyType': VBuiltin('MappingProxyType', lambda i, a, k: a[0])})

    def simple_ns(self):
        c = VClass('SimpleNamespace', [self.b['object']], native='SimpleNamespace')
        c.construct = lambda i, cl, a, k: i.new(HInst(cl, dict(k)))
        return c

    def m_copy(self):
        return self.ns('copy', {'copy': VBuiltin('copy', lambda i, a, k: self.copy(i.res(a[0]), False, {})),
                                'deepcopy': VBuiltin('deepcopy', lambda i, a, k: self.copy(i.res(a[0]), True, {}))})

    def copy(self, v, deep, memo):
        it = self.it
        if isinstance(v, VArr):
            r = nm.copy_arr(it, v)
            return r
        if isinstance(v, VTuple):
            return VTuple([self.copy(it.res(x), True, memo) for x in v.items], v.fields, v.cls) if deep else v
        if isinstance(v, VRef):
            if v.id in memo:
                return memo[v.id]
            o = it.deref(v)
            rec = (lambda x: self.copy(it.res(x), True, memo)) if deep else (lambda x: x)
            if isinstance(o, HList):
                r = it.mklist([], o.kind)
                memo[v.id] = r
                it.put(r, HList([rec(x) for x in o.items], o.kind))
                return r
            if isinstance(o, HDict):
                r = it.new(HDict({}, o.kind))
                memo[v.id] = r
                it.put(r, HDict({k: (kv, rec(x)) for k, (kv, x) in o.d.items()}, o.kind))
                return r
            if isinstance(o, HInst):
                m = it.find_special(v, '__deepcopy__' if deep else '__copy__')
                if m is not None:
                    return it.call(m, [v] + ([it.mkdict([])] if deep else []), {})
                r = it.new(HInst(o.cls, {}))
                memo[v.id] = r
                it.put(r, HInst(o.cls, {k: rec(x) for k, x in o.attrs.items()}))
                return r
        return v

    # ------------------------------------------------------------------ itertools / operator / collections / dataclasses / enum
    def m_itertools(self):
        def mk(f):
            return VBuiltin('itertools', lambda i, a, k: i.mklist(f(i, a, k), 'iter'))

        def chain(i, a, k):
            return [x for s in a for x in i.iterate(s)]

        def product(i, a, k):
            import itertools as itl
            rep = const_int(i.res(k['repeat'])) if 'repeat' in k else 1
            ls = [i.iterate(x) for x in a] * rep
            return [VTuple(t) for t in itl.product(*ls)]

        def combs(which):
            def f(i, a, k):
                import itertools as itl
                n = const_int(i.res(a[1])) if len(a) > 1 else None
                return [VTuple(t) for t in getattr(itl, which)(i.iterate(a[0]), *([n] if n is not None else []))]
            return f

        def islice(i, a, k):
            items = i.iterate(a[0])
            ns = [None if x is None else const_int(i.res(x)) for x in a[1:]]
            return items[slice(*ns)]

        def accumulate(i, a, k):
            out = []
            if len(a) > 2 or set(k) - {'func', 'initial'}:
                raise Unsupported('arguments of itertools.accumulate', i.where())
            if 'func' in k:
                a = [a[0], k['func']]
            if len(a) > 1 and i.res(a[1]) is None:
                a = a[:1]
            if i.res(k.get('initial')) is not None:
                out.append(k['initial'])
            for x in i.iterate(a[0]):
                out.append(x if not out else (i.call(a[1], [out[-1], x], {}) if len(a) > 1 else i.binop('Add', out[-1], x)))
            return out

        def repeat(i, a, k):
            if len(a) < 2:
                raise Unsupported('infinite iterator', i.where())
            return [a[0]] * const_int(i.res(a[1]))

        def zip_longest(i, a, k):
            ls = [i.iterate(x) for x in a]
            n = max(map(len, ls))
            fv = k.get('fillvalue')
            return [VTuple([s[j] if j < len(s) else fv for s in ls]) for j in range(n)]

        def starmap(i, a, k):
            return [i.call(a[0], i.iterate(x), {}) for x in i.iterate(a[1])]

        def pairwise(i, a, k):
            s = i.iterate(a[0])
            return [VTuple(t) for t in zip(s, s[1:])]
        ch = mk(chain)
        ch.attrs['from_iterable'] = mk(lambda i, a, k: [x for s in i.iterate(a[0]) for x in i.iterate(s)])
        return self.ns('itertools', {'chain': ch, 'product': mk(product), 'combinations': mk(combs('combinations')), 'permutations': mk(combs('permutations')),
                                     'islice': mk(islice), 'accumulate': mk(accumulate), 'repeat': mk(repeat), 'zip_longest': mk(zip_longest),
                                     'starmap': mk(starmap), 'pairwise': mk(pairwise)})

    def m_operator(self):
        d = {}
        for n, op in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('mod', 'Mod'), ('floordiv', 'FloorDiv'), ('pow', 'Pow'),
                      ('matmul', 'MatMult'), ('and_', 'BitAnd'), ('or_', 'BitOr')):
            d[n] = VBuiltin(n, lambda i, a, k, op=op: i.binop(op, a[0], a[1]))
        for n, op in (('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('eq', 'Eq'), ('ne', 'NotEq')):
            d[n] = VBuiltin(n, lambda i, a, k, op=op: i.compare(op, a[0], a[1]))
        d['neg'] = VBuiltin('neg', lambda i, a, k: i.unop('USub', a[0]))
        d['not_'] = VBuiltin('not_', lambda i, a, k: VBool(c_not(i.truth(a[0]))))
        d['getitem'] = VBuiltin('getitem', lambda i, a, k: i.getitem(a[0], a[1]))
        d['contains'] = VBuiltin('contains', lambda i, a, k: i.compare('In', a[1], a[0]))

        def getter(f):
            def g(i, a, k):
                def h(i2, b, k2):
                    r = [f(i2, b[0], x) for x in a]
                    return r[0] if len(r) == 1 else VTuple(r)
                return VBuiltin('getter', h)
            return g
        d['methodcaller'] = VBuiltin('methodcaller', lambda i, a, k: VBuiltin('methodcaller', lambda i2, b, k2: i2.call(i2.getattr(b[0], a[0]), list(a[1:]), k)))
        d['itemgetter'] = VBuiltin('itemgetter', getter(lambda i, o, x: i.getitem(o, x)))

        def dotted(i, o, x):
            for p in x.split('.'):
                o = i.getattr(o, p)
            return o
        d['attrgetter'] = VBuiltin('attrgetter', getter(dotted))
        d['setitem'] = VBuiltin('setitem', lambda i, a, k: i.setitem(a[0], a[1], a[2]))
        return self.ns('operator', d)

    def m_collections(self):
        def namedtuple(i, a, k):
            fs = i.res(a[1])
            names = fs.replace(',', ' ').split() if isinstance(fs, str) else [i.res(x) for x in i.iterate(fs)]
            return self.mk_namedtuple(a[0], names, i.iterate(k['defaults']) if 'defaults' in k else [])

        def defaultdict(i, a, k):
            d = i.call(self.b['dict'], list(a[1:]), k)
            if a and i.res(a[0]) is not None:
                i.put(d, HDict(i.deref(d).d, 'defaultdict'))
                i.factories[d.id] = i.res(a[0])
            return d

        def deque(i, a, k):
            if len(a) > 1 or k:
                raise Unsupported('bounded deque', i.where())
            return i.mklist(i.iterate(a[0]) if a else [])
        return self.ns('collections', {'namedtuple': VBuiltin('namedtuple', namedtuple), 'OrderedDict': self.b['dict'],
                                       'defaultdict': VBuiltin('defaultdict', defaultdict), 'deque': VBuiltin('deque', deque)})

    def mk_namedtuple(self, name, names, defaults):
        it = self.it
        c = VClass(name, [self.b['tuple']], native=name)

        def construct(i, cl, a, k):
            vals = dict(zip(names, a))
            for n in names[len(a):]:
                if n in k:
                    vals[n] = k[n]
                else:
                    j = names.index(n) - (len(names) - len(defaults))
                    if j < 0:
                        i.raise_('TypeError', f'{name}() missing argument {n}')
                    vals[n] = defaults[j]
            if len(a) > len(names) or set(k) - set(names):
                i.raise_('TypeError', f'{name}() bad arguments')
            return VTuple([vals[n] for n in names], fields=tuple(names), cls=cl)

        def replace(i, a, k):
            t = i.res(a[0])
            return VTuple([k.get(n, v) for n, v in zip(names, t.items)], fields=tuple(names), cls=t.cls)
        c.nmethods = {'_replace': VBuiltin('_replace', replace, {'method': True}),
                      '_asdict': VBuiltin('_asdict', lambda i, a, k: i.mkdict(list(zip(names, i.res(a[0]).items))), {'method': True}),
                      '_make': VClassMethod(VBuiltin('_make', lambda i, a, k: construct(i, i.res(a[0]), i.iterate(a[1]), {}))),
                      '_fields': VTuple(names), '__match_args__': VTuple(names)}
        c.construct = construct
        return c

    def namedtuple_cls(self):
        if 'nt' not in self.cache:
            c = VClass('NamedTuple', [self.b['object']], native='NamedTuple')

            def hook(cls):
                names = [s.target.id for s in cls.meta['ann']]
                fr = self.it.deref(cls.ns)
                dfl = [fr.vars[n] for n in names if n in fr.vars]
                t = self.mk_namedtuple(cls.name, names, dfl)
                cls.construct = lambda i, cl, a, k: t.construct(i, cl, a, k)
                cls.nmethods = {**t.nmethods, **cls.nmethods}
                fr = self.it.deref(cls.ns)
                self.it.st.heap[cls.ns] = fr.with_vars({**t.nmethods, **{n: v for n, v in fr.vars.items() if n not in names}})
            c.meta['subclass_hook'] = hook
            self.cache['nt'] = c
        return self.cache['nt']

    def frozen_error(self):
        if 'FrozenInstanceError' not in self.cache:
            self.cache['FrozenInstanceError'] = VClass('FrozenInstanceError', [self.b['AttributeError']], native='FrozenInstanceError')
        return self.cache['FrozenInstanceError']

    def m_dataclasses(self):
        it = self.it
        FIELD = {}

        def field(i, a, k):
            return VNative('dcfield', **k)

        def yes(i, k, n, d=False):
            return i.decide(i.truth(k[n])) is TRUE if n in k else d

        def annotation(s):
            n = s.annotation
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                return n.value
            return ast.unparse(n)

        def dataclass(i, a, k):
            if set(k) - {'frozen', 'eq', 'order', 'repr', 'init', 'unsafe_hash', 'slots', 'kw_only', 'match_args'}:
                raise Unsupported('dataclass option', i.where())

            def deco(cls):
                fields = {}
                for c in reversed(cls.mro[1:]):
                    fields.update(c.meta.get('dcfields', {}))
                fr = i.deref(cls.ns)
                kwonly = yes(i, k, 'kw_only')
                d = dict(fr.vars)
                for s in cls.meta.get('ann', []):
                    n = s.target.id
                    an = annotation(s)
                    if 'ClassVar' in an:
                        continue
                    if 'InitVar' in an:
                        raise Unsupported('InitVar', i.where())
                    if an.endswith('KW_ONLY'):
                        kwonly = True
                        continue
                    dv = i.res(fr.vars[n]) if n in fr.vars else None
                    f = dict(kind='val' if n in fr.vars else 'req', default=dv, init=True, compare=True, kw=kwonly)
                    if isinstance(dv, VNative) and dv.kind == 'dcfield':
                        f.update(kind='factory' if 'default_factory' in dv.d else 'val' if 'default' in dv.d else 'req',
                                 default=dv.d.get('default_factory', dv.d.get('default')), init=yes(i, dv.d, 'init', True),
                                 compare=yes(i, dv.d, 'compare', True), kw=yes(i, dv.d, 'kw_only', kwonly))
                        if 'default' in dv.d:
                            d[n] = dv.d['default']
                        else:
                            d.pop(n, None)
                    elif isinstance(dv, VRef) and not isinstance(i.deref(dv), HInst):
                        i.raise_('ValueError', 'mutable default is not allowed: use default_factory')
                    elif f['kind'] == 'req' and any(g['kind'] != 'req' and g['init'] and not g['kw'] for m, g in fields.items() if m != n) and not kwonly:
                        i.raise_('TypeError', f"non-default argument '{n}' follows default argument")
                    fields[n] = f
                cls.meta['dcfields'] = fields
                pos = [n for n, f in fields.items() if f['init'] and not f['kw']]

                def init(i2, a2, k2):
                    o, rest = a2[0], list(a2[1:])
                    k2 = dict(k2)
                    if len(rest) > len(pos):
                        i2.raise_('TypeError', '__init__() takes too many positional arguments')
                    given = dict(zip(pos, rest))
                    for n in list(k2):
                        if n in fields and fields[n]['init'] and n not in given:
                            given[n] = k2.pop(n)
                    if k2:
                        i2.raise_('TypeError', '__init__() got an unexpected keyword argument')
                    for n, f in fields.items():
                        if n in given:
                            v = given[n]
                        elif f['kind'] == 'factory':
                            v = i2.call(f['default'], [], {})
                        elif f['kind'] == 'val':
                            v = f['default']
                            if not f['init']:
                                continue
                        elif not f['init']:
                            continue
                        else:
                            i2.raise_('TypeError', f'__init__() missing required argument {n}')
                        ob = i2.deref(o)
                        cv, owner = i2.class_lookup(ob.cls, n)
                        if not ob.cls.meta.get('frozen') and (isinstance(cv, VProperty) or i2.class_lookup(ob.cls, '__setattr__')[1].ns is not None):
                            i2.setattr(o, n, v)
                            continue
                        i2.put(o, HInst(ob.cls, {**ob.attrs, n: v}))
                        i2.event('attrwrite', obj=o.id, name=n)
                    m = i2.find_special(o, '__post_init__')
                    if m is not None:
                        i2.call(m, [o], {})
                cmpf = [n for n, f in fields.items() if f['compare']]

                def tup(i2, o):
                    return VTuple([i2.getattr(o, n) for n in cmpf])

                def cmp(op):
                    def g(i2, a2, k2):
                        x, y = i2.res(a2[0]), i2.res(a2[1])
                        if not isinstance(y, VRef) or i2.type_of(y) is not i2.type_of(x):
                            return i2.builtins['NotImplemented']
                        if op == 'Eq':
                            c = TRUE
                            for n in cmpf:
                                c = c_and(c, i2.truth(i2.compare('Eq', i2.getattr(x, n), i2.getattr(y, n))))
                            return VBool(c)
                        return i2.compare(op, tup(i2, x), tup(i2, y))
                    return VBuiltin('__' + op.lower() + '__', g, {'method': True})
                if '__init__' not in d and yes(i, k, 'init', True):
                    d['__init__'] = VBuiltin('__init__', init, {'method': True})
                if '__eq__' not in d and yes(i, k, 'eq', True):
                    d['__eq__'] = cmp('Eq')
                if yes(i, k, 'order'):
                    for n, op in (('__lt__', 'Lt'), ('__le__', 'LtE'), ('__gt__', 'Gt'), ('__ge__', 'GtE')):
                        d[n] = cmp(op)
                if '__match_args__' not in d:
                    d['__match_args__'] = VTuple(pos)
                i.put(cls.ns, fr.with_vars(d)) if isinstance(cls.ns, VRef) else i.st.heap.__setitem__(cls.ns, fr.with_vars(d))
                if yes(i, k, 'frozen'):
                    cls.meta['frozen'] = True
                return cls
            if a:
                return deco(i.res(a[0]))
            return VBuiltin('dataclass', lambda i2, a2, k2: deco(i2.res(a2[0])))

        def names(i, o):
            c = o if isinstance(o, VClass) else i.type_of(o)
            if 'dcfields' not in c.meta:
                fs = [b.meta['dcfields'] for b in c.mro if 'dcfields' in b.meta]
                if not fs:
                    i.raise_('TypeError', 'should be called on dataclass instances')
                return fs[0]
            return c.meta['dcfields']

        def replace(i, a, k):
            o = i.res(a[0])
            fs = names(i, o)
            vals = {n: i.getattr(o, n) for n, f in fs.items() if f['init'] and n not in k}
            return i.instantiate(i.type_of(o), [], {**vals, **k})

        def conv(i, v, mk):
            v = i.res(v)
            if isinstance(v, VRef) and isinstance(i.deref(v), HInst) and any('dcfields' in b.meta for b in i.type_of(v).mro):
                return mk(v)
            if isinstance(v, VRef) and isinstance(i.deref(v), HList):
                return i.mklist([conv(i, x, mk) for x in i.iterate(v)])
            if isinstance(v, VTuple):
                return VTuple([conv(i, x, mk) for x in v.items], v.fields, v.cls)
            if isinstance(v, VRef) and isinstance(i.deref(v), HDict):
                return i.mkdict([(kv, conv(i, x, mk)) for kv, x in i.deref(v).d.values()])
            if isinstance(v, VArr):
                return i.call(self.ext.nlib.ns['copy'], [v], {})
            return v

        def asdict(i, a, k):
            return i.mkdict([(n, conv(i, i.getattr(a[0], n), lambda v: asdict(i, [v], {}))) for n in names(i, i.res(a[0]))])

        def astuple(i, a, k):
            return VTuple([conv(i, i.getattr(a[0], n), lambda v: astuple(i, [v], {})) for n in names(i, i.res(a[0]))])

        def fields_(i, a, k):
            return VTuple([VNative('dcfield', name=n, default=f['default'] if f['kind'] == 'val' else VNative('missing')) for n, f in names(i, i.res(a[0])).items()])
        return self.ns('dataclasses', {'dataclass': VBuiltin('dataclass', dataclass), 'field': VBuiltin('field', field), 'replace': VBuiltin('replace', replace),
                                       'asdict': VBuiltin('asdict', asdict), 'astuple': VBuiltin('astuple', astuple), 'fields': VBuiltin('fields', fields_),
                                       'is_dataclass': VBuiltin('is_dataclass', lambda i, a, k: B(any('dcfields' in b.meta for b in (
                                           i.res(a[0]) if isinstance(i.res(a[0]), VClass) else i.type_of(i.res(a[0]))).mro))),
                                       'KW_ONLY': self.ty('Any'), 'FrozenInstanceError': self.frozen_error()})

    def m_enum(self):
        def mk(name, bases):
            c = VClass(name, bases, native=name)

            def hook(cls):
                it = self.it
                fr = it.deref(cls.ns)
                d = dict(fr.vars)
                members = []
                n = 0
                for k, v in fr.vars.items():
                    v = it.res(v)
                    if k.startswith('_') or isinstance(v, (VFunc, VProperty, VStatic, VClassMethod)):
                        continue
                    if isinstance(v, VNative) and v.kind == 'auto':
                        n += 1
                        v = I(n)
                    elif const_int(v) is not None:
                        n = const_int(v)
                    if isinstance(v, VNum) and any(b.native == 'int' for b in cls.mro):
                        m = VIntMember(v.t, cls, k)
                    elif any(b.native in ('int', 'str') for b in cls.mro):
                        m = v           # StrEnum members behave as their value
                    else:
                        m = it.new(HInst(cls, {'value': v, 'name': k, '_value_': v}))
                    d[k] = m
                    members.append(m)
                it.st.heap[cls.ns] = fr.with_vars(d)
                cls.meta['enum'] = members

                def construct(i, cl, a, k):
                    for m in members:
                        val = i.getattr(m, 'value') if isinstance(m, VRef) else m
                        if i.decide(i.truth(i.compare('Eq', val, a[0]))) is TRUE:
                            return m
                    i.raise_('ValueError', 'not a valid enum value')
                cls.construct = construct
            c.meta['subclass_hook'] = hook
            return c
        e = mk('Enum', [self.b['object']])
        return self.ns('enum', {'Enum': e, 'IntEnum': mk('IntEnum', [self.b['int']]), 'StrEnum': mk('StrEnum', [self.b['str']]),
                                'auto': VBuiltin('auto', lambda i, a, k: VNative('auto')), 'unique': VBuiltin('unique', lambda i, a, k: a[0])})

    def m_numbers(self):
        d = {}
        for n in ('Number', 'Complex', 'Real', 'Rational', 'Integral'):
            c = VClass(n, [self.b['object']], native=n)
            c.meta['numbers'] = True
            d[n] = c
        return self.ns('numbers', d)

    def m_logging(self):
        noop = VBuiltin('log', lambda i, a, k: None)
        lg = VNative('logger')
        d = {n: noop for n in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'basicConfig', 'log', 'setLevel')}
        d['getLogger'] = VBuiltin('getLogger', lambda i, a, k: lg)
        for n in ('DEBUG', 'INFO', 'WARNING', 'ERROR'):
            d[n] = I(10)
        return self.ns('logging', d)

    def m_sys(self):
        return self.ns('sys', {'version_info': VTuple([I(3), I(12), I(3)]), 'maxsize': I(2**63 - 1), 'float_info': VNative('float_info'),
                               'platform': 'linux', 'modules': self.it.mkdict([])})

    def m_os(self):
        return self.ns('os', {})

    def m_time(self):
        return self.ns('time', {n: VBuiltin(n, lambda i, a, k: VNum(tm.sym('$now'), 'float')) for n in ('time', 'perf_counter', 'monotonic')})

    def m_random(self):
        def rnd(i, a, k):
            i.event('random')
            i.fresh += 1
            return VNum(tm.sym(f'$random{i.fresh}'), 'float')
        return self.ns('random', {n: VBuiltin(n, rnd) for n in ('random', 'uniform', 'gauss', 'normalvariate')})

    def m_fractions(self):
        return self.ns('fractions', {})

    def m_decimal(self):
        return self.ns('decimal', {})

    def m_string(self):
        return self.ns('string', {})

    def m_re(self):
        return self.ns('re', {})

    def m_inspect(self):
        return self.ns('inspect', {})

    def m_importlib(self):
        def imp(i, a, k):
            m = i.import_module(i.res(a[0]))
            if m is None:
                i.raise_('ModuleNotFoundError', f'No module named {a[0]!r}')
            return m
        spec = self.ns('importlib.util', {'find_spec': VBuiltin('find_spec', lambda i, a, k: None if i.import_module(i.res(a[0])) is None else VNative('spec'))})
        self.cache['importlib.util'] = spec
        return self.ns('importlib', {'import_module': VBuiltin('import_module', imp), 'util': spec})

    def m_importlib_util(self):
        self.m_importlib()
        return self.cache['importlib.util']

    # ------------------------------------------------------------------ attributes of values
    def strattr(self, o, name):
        return containers.strattr(self.it, o, name)

    def tupleattr(self, o, name):
        return containers.tupleattr(self.it, o, name)

    def listattr(self, o, h, name):
        return containers.listattr(self.it, o, h, name)

    def dictattr(self, o, h, name):
        return containers.dictattr(self.it, o, h, name)

    def nativeattr(self, o, name):
        if o.kind == 'logger':
            return VBuiltin('log', lambda i, a, k: None)
        if o.kind == 'float_info':
            return VNum(tm.sym(f'$float_{name}', 'pos'), 'float')
        if o.kind == 'typing':
            if name in ('__args__',):
                return VTuple(o.d.get('args') or ())
            if name == '__origin__':
                return o.d.get('origin')
        if name in o.d and o.kind in ('dcfield', 'spec'):
            return o.d[name]
        return NotImplemented

    def classattr(self, c, name):
        if name == 'model_fields' and 'fields' in c.meta:
            return self.it.mkdict([(f, VNative('fieldinfo')) for f in c.meta['fields']])
        if name in ('__module__',):
            return ''
        if name == '__new__':
            return self.b['object'].nmethods['__new__'].func
        return None

    def call_native(self, f, args, kwargs):
        if f.kind == 'typing' and f.d['name'] in ('List', 'Dict', 'Tuple', 'Set'):
            return self.it.call(self.b[f.d['name'].lower()], args, kwargs)
        if f.kind == 'typing' and isinstance(f.d.get('origin'), VClass):
            return self.it.call(f.d['origin'], args, kwargs)
        return NotImplemented
