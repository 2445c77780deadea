"""Library model: value operations (types, truth, operators, indexing, attributes) and the
namespaces of the modules the package imports."""
from __future__ import annotations

from . import terms as tm
from . import npmodel as nm
from . import npfuncs, npextra, libphys
from .libmods import Mods
from .terms import T, TRUE, FALSE, c_and, c_or, c_not
from .values import *

DUNDER = {
    'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'Mod': 'mod', 'FloorDiv': 'floordiv', 'Pow': 'pow', 'MatMult': 'matmul',
    'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'LShift': 'lshift', 'RShift': 'rshift',
}
CMPD = {'Lt': ('__lt__', '__gt__'), 'Gt': ('__gt__', '__lt__'), 'LtE': ('__le__', '__ge__'), 'GtE': ('__ge__', '__le__'), 'Eq': ('__eq__', '__eq__'),
        'NotEq': ('__ne__', '__ne__')}


def make(it):
    return Ext(it)


class Ext:
    def __init__(self, it):
        self.it = it
        b = it.builtins
        obj = b['object']
        self.npm = nm
        mk = lambda n, bases=None, **kw: VClass(n, bases or [obj], native=n, **kw)
        self.ABC = mk('ABC')
        self.ndarray = mk('ndarray', construct=self.c_ndarray)
        self.matrix = mk('matrix', [self.ndarray], construct=self.c_matrix)
        self.jaxarray = mk('Array')
        self.dtypecls = mk('dtype')
        self.generic = mk('generic')
        self.npscalars = {}
        number = mk('number', [self.generic])
        integer = mk('integer', [number])
        floating = mk('floating', [number])

        def sc(n, base, dt, extra=()):
            c = mk(n, [base] + list(extra), construct=lambda i, cl, a, k, dt=dt: self.c_npscalar(dt, a))
            self.npscalars[n] = c
        self.npscalars.update(number=number, integer=integer, floating=floating, generic=self.generic,
                              inexact=floating, signedinteger=integer)
        sc('float64', floating, 'float64', [b['float']])
        sc('float32', floating, 'float32')
        sc('float16', floating, 'float32')
        sc('int64', integer, 'int64')
        sc('int32', integer, 'int64')
        sc('int16', integer, 'int64')
        sc('int8', integer, 'int64')
        sc('uint8', integer, 'int64')
        sc('bool_', self.generic, 'bool')
        self.UFuncTypeError = VClass('UFuncTypeError', [b['TypeError']], native='UFuncTypeError')
        self.LinAlgError = VClass('LinAlgError', [b['ValueError']], native='LinAlgError')
        self.OdeResult = mk('OdeResult')
        self.OdeResult.nmethods['__getitem__'] = VBuiltin('OdeResult.__getitem__', lambda i, a, k: i.getattr(a[0], i.res(a[1])), {'method': True})
        self.nullcls = mk('nullcontext')
        self.pint = libphys.Pint(it, self)
        self.rot = libphys.Rot(it, self)
        self.jlib = None
        self.nlib = npfuncs.Lib(it, self, 'np')
        if it.jax_present:
            self.jlib = npfuncs.Lib(it, self, 'jax')
        self.mods = Mods(it, self)

    # ------------------------------------------------------------------ constructors
    def c_npscalar(self, dt, a):
        it = self.it
        v = it.res(a[0]) if a else I(0)
        o = nm.opnd_t(it, v)
        if o.jx == 'traced':
            it.event('concretize', what='numpy scalar of a traced value')
            it.raise_('TypeError', 'ConcretizationTypeError')
        cells = [nm.cast(c, dt) for c in o.c]
        return nm.wrap(it, cells, o.shape, dt, None, True)

    def c_ndarray(self, it, cls, a, k):
        sh = nm.shape_arg(it, npfuncs.arg(a, k, 0, 'shape'))
        d = nm.dtype_name(it, npfuncs.arg(a, k, 1, 'dtype')) or 'float64'
        it.event('uninit')
        cells = []
        for _ in range(nm.size_of(sh)):
            it.fresh += 1
            cells.append(nm.cast(tm.sym(f'$uninit{it.fresh}'), d))
        return it.mkarr(cells, sh, d)

    def c_matrix(self, it, cls, a, k):
        d = nm.dtype_name(it, npfuncs.arg(a, k, 1, 'dtype'))
        r = nm.array_of(it, a[0], d)
        sh = r.shape if len(r.shape) == 2 else (1, r.size)
        return VArr(r.buf, r.idx, sh, r.dt, None, True)

    def dtype(self, name):
        return VNative('dtype', name=name)

    # ------------------------------------------------------------------ modules / classes
    def module(self, name):
        return self.mods.module(name)

    def as_class(self, v):
        v = self.it.res(v)
        if isinstance(v, VClass):
            return v
        if isinstance(v, VNative) and v.kind == 'typing':
            return None
        if isinstance(v, VBuiltin):
            raise Unsupported(f'base class {v.name}')
        raise Unsupported(f'base class {v!r}')

    def class_created(self, cls, kws=None):
        it = self.it
        cls.meta.setdefault('frozen', False)
        cls.meta['ckw'] = dict(kws or {})
        for b in cls.mro[1:]:
            h = b.meta.get('subclass_hook')
            if h is not None:
                h(cls)
                break
        hook, owner = it.class_lookup(cls, '__init_subclass__')
        for c in cls.mro[1:]:
            if c.ns is not None and '__init_subclass__' in it.deref(c.ns).vars:
                f = it.deref(c.ns).vars['__init_subclass__']
                f = f.func if isinstance(f, VClassMethod) else f
                it.call(f, [cls], dict(kws or {}))
                break
        else:
            if kws and not any('enum' in b.meta or 'fields' in b.meta or b.ns is None and b.name not in ('object', 'ABC', 'Generic') for b in cls.mro[1:]):
                it.raise_('TypeError', f'{cls.name}.__init_subclass__() takes no keyword arguments')

    def type_of(self, v):
        it = self.it
        b = it.builtins
        v = it.res(v)
        if v is None:
            return b['NoneType']
        if isinstance(v, VIntMember):
            return v.cls
        if isinstance(v, VNum):
            if v.jx is not None:
                return self.jaxarray
            if v.np is not None:
                return self.npscalars[v.np]
            return b['int'] if v.k == 'int' else b['float']
        if isinstance(v, VBool):
            if v.jx is not None:
                return self.jaxarray
            return self.npscalars['bool_'] if v.np else b['bool']
        if isinstance(v, str):
            return b['str']
        if isinstance(v, bytes):
            return b['bytes']
        if isinstance(v, VTuple):
            if v.cls == 'range':
                return b['range']
            return v.cls if isinstance(v.cls, VClass) else b['tuple']
        if isinstance(v, VArr):
            return self.jaxarray if v.jx is not None else (self.matrix if v.matrix else self.ndarray)
        if isinstance(v, VRef):
            o = it.deref(v)
            if isinstance(o, HInst):
                return o.cls
            if isinstance(o, HList):
                return b['list'] if o.kind == 'list' else (b['set'] if o.kind == 'set' else b['map'] if o.kind == 'iter' else b['list'])
            if isinstance(o, HDict):
                return b['dict']
        if isinstance(v, VClass):
            return b['type']
        if isinstance(v, (VFunc, VBuiltin, VBound, VPartial)):
            return b['function']
        if isinstance(v, (VModule, VExtModule)):
            return b['module']
        if isinstance(v, VOpaque):
            return b.get(v.typ, b['object'])
        if isinstance(v, VSlice):
            return b['slice']
        if isinstance(v, VProperty):
            return b['property']
        if isinstance(v, VNative):
            m = {'quantity': self.pint.Quantity, 'unit': self.pint.Unit, 'ureg': self.pint.Registry, 'rotation': self.rot.cls, 'dtype': self.dtypecls}
            if v.kind in ('quantity', 'unit') and self.pint.reg(v) is not None:
                return self.pint.regcls(self.pint.reg(v), v.kind)
            return m.get(v.kind, b['object'])
        if v is Ellipsis:
            return b['object']
        raise Unsupported(f'type of {v!r}')

    def isinstance_c(self, v, cls):
        return TRUE if self._isinst(v, cls) else FALSE

    def isinstance(self, v, cls):
        return VBool(self.isinstance_c(v, cls))

    def _isinst(self, v, cls):
        it = self.it
        cls = it.res(cls)
        if isinstance(cls, VTuple):
            return any(self._isinst(v, x) for x in cls.items)
        if isinstance(cls, VNative) and cls.kind == 'union':
            return any(self._isinst(v, x) for x in cls.d['args'])
        if isinstance(cls, VNative) and cls.kind == 'typing':
            n = cls.d['name']
            m = {'Callable': 'callable', 'List': 'list', 'Dict': 'dict', 'Tuple': 'tuple', 'Set': 'set', 'Mapping': 'dict', 'Sequence': 'list'}
            if n == 'Union' and cls.d.get('args'):
                return any(self._isinst(v, x) for x in cls.d['args'])
            if n == 'Callable':
                return it.decide(it.call(it.builtins['callable'], [v], {}).c) is TRUE
            if n in m:
                t = self.type_of(v)
                if n in ('Sequence',):
                    return t.issub(it.builtins['list']) or t.issub(it.builtins['tuple']) or t.issub(it.builtins['str'])
                return t.issub(it.builtins[m[n]])
            if n in ('Iterable', 'Sized', 'Collection', 'Container'):
                t = self.type_of(v)
                return t in (it.builtins['list'], it.builtins['tuple'], it.builtins['dict'], it.builtins['set'], it.builtins['str'], self.ndarray, self.matrix, self.jaxarray, it.builtins['range'])
            if n in ('Hashable', 'Any'):
                return True
            raise Unsupported(f'isinstance with typing.{n}', it.where())
        if cls is None:
            return v is None
        if not isinstance(cls, VClass):
            it.raise_('TypeError', 'isinstance() arg 2 must be a type')
        t = self.type_of(v)
        if isinstance(v, (str, VNum)) and 'enum' in cls.meta and not isinstance(v, VIntMember):
            raise Unsupported('type of an enumeration member', it.where())
        if cls.native in ('Number', 'Real', 'Rational', 'Integral', 'Complex') and cls.meta.get('numbers'):
            if isinstance(v, VArr):
                return False
            if isinstance(v, VBool):
                return not v.np and v.jx is None
            return isinstance(v, VNum) and v.jx is None and (v.k == 'int' or cls.native in ('Number', 'Real', 'Complex'))
        if t.issub(cls):
            return True
        ic, owner = it.class_lookup(cls, '__instancecheck__')
        return False

    # ------------------------------------------------------------------ truth / iteration / length
    def truth(self, v):
        it = self.it
        if v is None:
            return FALSE
        if isinstance(v, VBool):
            if v.jx == 'traced' and v.c.v is not None:
                it.event('concretize', what='truth value of a traced array')
                it.raise_('TypeError', 'TracerBoolConversionError')
            return v.c
        if isinstance(v, VNum):
            if v.jx == 'traced' and v.t.const() is None:
                it.event('concretize', what='truth value of a traced array')
                it.raise_('TypeError', 'TracerBoolConversionError')
            return c_not(nm.eq(v.t, tm.ZERO)) if not tm.has_nan(v.t) else TRUE
        if isinstance(v, (str, bytes)):
            return TRUE if v else FALSE
        if isinstance(v, VTuple):
            return TRUE if v.items else FALSE
        if isinstance(v, VArr):
            if v.size == 0:
                return FALSE
            if v.size > 1:
                it.raise_('ValueError', 'The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
            if v.jx == 'traced':
                it.event('concretize', what='truth value of a traced array')
                it.raise_('TypeError', 'TracerBoolConversionError')
            return nm.as_cond(it.cells(v)[0])
        if isinstance(v, VRef):
            o = it.deref(v)
            if isinstance(o, HList):
                return TRUE if o.items else FALSE
            if isinstance(o, HDict):
                return TRUE if o.d else FALSE
            m = it.find_special(v, '__bool__')
            if m is not None:
                return it.truth(it.call(m, [v], {}))
            m = it.find_special(v, '__len__')
            if m is not None:
                return it.truth(it.call(m, [v], {}))
            return TRUE
        if isinstance(v, VOpaque):
            if v.typ == 'str':
                return TRUE
            raise Unsupported('truth of an unknown value', it.where())
        if isinstance(v, VNative) and v.kind == 'quantity':
            return self.truth(it.res(v.d['m']))
        return TRUE

    def length(self, v):
        it = self.it
        if isinstance(v, (str, bytes)):
            return len(v)
        if isinstance(v, VTuple):
            return len(v.items)
        if isinstance(v, VArr):
            if v.ndim == 0:
                it.raise_('TypeError', 'len() of unsized object')
            return v.shape[0]
        if isinstance(v, VRef):
            o = it.deref(v)
            if isinstance(o, HList) and o.kind != 'iter':
                return len(o.items)
            if isinstance(o, HDict):
                return len(o.d)
            m = it.find_special(v, '__len__')
            if m is not None:
                n = const_int(it.res(it.call(m, [v], {})))
                if n is None:
                    raise Unsupported('symbolic length', it.where())
                return n
        if isinstance(v, VOpaque):
            raise Unsupported('length of an unknown value', it.where())
        if isinstance(v, VNative) and v.kind == 'quantity':
            return self.length(it.res(v.d['m']))
        if isinstance(v, VClass) and 'enum' in v.meta:
            return len(v.meta['enum'])
        it.raise_('TypeError', f"object of type '{self.type_of(v).name}' has no len()")

    def iterate(self, v):
        it = self.it
        if isinstance(v, VTuple):
            return list(v.items)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, VArr):
            if v.ndim == 0:
                it.raise_('TypeError', 'iteration over a 0-d array')
            return [nm.getitem(it, v, I(i)) for i in range(v.shape[0])]
        if isinstance(v, VRef):
            o = it.deref(v)
            if isinstance(o, HList):
                if o.kind == 'iter':
                    it.put(v, HList((), 'iter'))
                return list(o.items)
            if isinstance(o, HDict):
                return [k for k, _ in o.d.values()]
            m = it.find_special(v, '__iter__')
            if m is not None:
                r = it.res(it.call(m, [v], {}))
                if r == v or (isinstance(r, VRef) and isinstance(it.deref(r), HInst)):
                    out = []
                    nx = it.find_special(r, '__next__')
                    if nx is None:
                        raise Unsupported('custom iterator', it.where())
                    for _ in range(4096):
                        got = it.catch(lambda: it.call(nx, [r], {}), [it.builtins['StopIteration']])
                        if got is None:
                            return out
                        out.append(got[0])
                    raise Unsupported('custom iterator bound', it.where())
                return self.iterate(r)
            m = it.find_special(v, '__getitem__')
            if m is not None and it.has_method(v, '__len__'):
                return [it.call(m, [v, I(i)], {}) for i in range(self.length(v))]
        if isinstance(v, VNative) and v.kind == 'quantity':
            return [VNative('quantity', m=x, u=v.d['u']) for x in it.iterate(v.d['m'])]
        if isinstance(v, VClass) and 'enum' in v.meta:
            return list(v.meta['enum'])
        if isinstance(v, VOpaque):
            raise Unsupported('iteration over an unknown value', it.where())
        it.raise_('TypeError', f"'{self.type_of(v).name}' object is not iterable")

    # ------------------------------------------------------------------ operators
    def pynum2(self, op, a, b):
        """plain python / numpy scalar arithmetic"""
        it = self.it
        np_ = None
        if getattr(a, 'np', None) or getattr(b, 'np', None):
            o = [nm.opnd(it, a), nm.opnd(it, b)]
            np_ = nm.promote(o)
        jx = nm.jmax(a.jx, b.jx)
        ta, tb = nm.as_term(nm.opnd(it, a).c[0]), nm.as_term(nm.opnd(it, b).c[0])
        ka = 'int' if isinstance(a, VBool) else a.k
        kb = 'int' if isinstance(b, VBool) else b.k
        k = 'int' if ka == kb == 'int' else 'float'
        bothbool = isinstance(a, VBool) and isinstance(b, VBool)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if bothbool:
                f = {'BitAnd': c_and, 'BitOr': c_or, 'BitXor': lambda p, q: tm.c_ite(p, c_not(q), q)}[op]
                return VBool(f(a.c, b.c), a.np or b.np, jx)
            x, y = const_int(a), const_int(b)
            if x is not None and y is not None:
                return I({'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[op])
            if k == 'float':
                it.raise_('TypeError', 'unsupported operand type(s) for bitwise operator')
            raise Unsupported('bitwise operation', it.where())
        if op in ('LShift', 'RShift'):
            x, y = const_int(a), const_int(b)
            if x is None or y is None:
                raise Unsupported('shift', it.where())
            return I(x << y if op == 'LShift' else x >> y)
        if op == 'MatMult':
            it.raise_('ValueError' if np_ else 'TypeError', 'matmul: scalar operand')
        if op in ('Div', 'Mod', 'FloorDiv') and np_ is None and jx is None:
            if tb.is_zero():
                it.raise_('ZeroDivisionError', 'division by zero')
            if tb.const() is None:
                it.event('divide', den=tb)
        f = nm.BIN.get(op)
        if f is None:
            raise Unsupported(f'operator {op}', it.where())
        r = f(ta, tb)
        if op == 'Div':
            k = 'float'
        if op == 'Pow' and k == 'int':
            e = tb.const()
            if e is None or e < 0:
                k = 'float'
        if np_ is not None:
            np_ = 'float64' if (k == 'float' and np_ in ('int64', 'bool')) else ('int64' if np_ == 'bool' else np_)
        return VNum(r, k, np_, jx)

    def binop(self, op, a, b):
        it = self.it
        num = (VNum, VBool)
        if isinstance(a, num) and isinstance(b, num):
            return self.pynum2(op, a, b)
        # user-defined operators first
        for x, y, pre in ((a, b, ''), (b, a, 'r')):
            if isinstance(x, VRef) and isinstance(it.deref(x), HInst):
                m = it.find_special(x, f'__{pre}{DUNDER[op]}__')
                if m is not None:
                    r = it.res(it.call(m, [x, y], {}))
                    if not (isinstance(r, VNative) and r.kind == 'NotImplemented'):
                        return r
        pk = ('quantity', 'unit')
        if (isinstance(a, VNative) and a.kind in pk) or (isinstance(b, VNative) and b.kind in pk):
            if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
                it.raise_('TypeError', 'unsupported operand for a quantity')
            return self.pint.binop(op, a, b)
        if isinstance(a, VNative) and a.kind == 'rotation' and isinstance(b, VNative) and b.kind == 'rotation' and op == 'Mult':
            return self.rot.mul(a, b)
        if isinstance(a, VArr) or isinstance(b, VArr):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, VArr) and x.jx is not None and isinstance(y, (VRef, VTuple)):
                    it.raise_('TypeError', 'unsupported operand type(s) between a JAX array and a list')
            if a is None or b is None or isinstance(a, (str, VOpaque)) or isinstance(b, (str, VOpaque)):
                it.raise_('TypeError', 'unsupported operand type(s)')
            return nm.arith(it, op, a, b)
        if isinstance(a, str) or isinstance(b, str) or isinstance(a, VOpaque) or isinstance(b, VOpaque):
            return self.strop(op, a, b)
        la, lb = self.seq(a), self.seq(b)
        if op == 'Add' and la is not None and lb is not None:
            if isinstance(a, VTuple) and isinstance(b, VTuple):
                return VTuple(la + lb)
            if isinstance(a, VRef) and isinstance(b, VRef):
                return it.mklist(la + lb)
        if op == 'Mult':
            for s, src, n in ((la, a, b), (lb, b, a)):
                if s is not None and isinstance(n, num):
                    c = const_int(n)
                    if c is None:
                        if isinstance(n, VNum) and (n.k == 'float'):
                            if n.np is not None:
                                return nm.arith(it, op, a, b)
                            it.raise_('TypeError', "can't multiply sequence by non-int of type 'float'")
                        raise Unsupported('sequence repetition', it.where())
                    if getattr(n, 'np', None):
                        return nm.arith(it, op, a, b)
                    return VTuple(s * c) if isinstance(src, VTuple) else it.mklist(s * c)
        if (la is not None and isinstance(b, VNum) and b.np) or (lb is not None and isinstance(a, VNum) and a.np):
            return nm.arith(it, op, a, b)
        if isinstance(a, VRef) and isinstance(b, VRef):
            oa, ob = it.deref(a), it.deref(b)
            if isinstance(oa, HDict) and isinstance(ob, HDict) and op == 'BitOr':
                return it.new(HDict({**oa.d, **ob.d}))
            if isinstance(oa, HList) and isinstance(ob, HList) and oa.kind == ob.kind == 'set':
                ka = {it.hkey(x): x for x in oa.items}
                kb = {it.hkey(x): x for x in ob.items}
                r = {'BitOr': {**ka, **kb}, 'BitAnd': {k: v for k, v in ka.items() if k in kb}, 'Sub': {k: v for k, v in ka.items() if k not in kb},
                     'BitXor': {k: v for k, v in {**ka, **kb}.items() if (k in ka) != (k in kb)}}.get(op)
                if r is not None:
                    return it.mklist(list(r.values()), 'set')
            if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and 'set' in (getattr(oa, 'kind', 0), getattr(ob, 'kind', 0)):
                raise Unsupported('set operation on a dictionary view', it.where())
        if op == 'BitOr' and all(isinstance(x, VClass) or x is None or (isinstance(x, VNative) and x.kind in ('typing', 'union')) for x in (a, b)):
            return VNative('union', args=(a, b))
        it.raise_('TypeError', f"unsupported operand type(s) for {op}: '{self.type_of(a).name}' and '{self.type_of(b).name}'")

    def seq(self, v):
        if isinstance(v, VTuple):
            return list(v.items)
        if isinstance(v, VRef):
            o = self.it.deref(v)
            if isinstance(o, HList) and o.kind == 'list':
                return list(o.items)
        return None

    def strop(self, op, a, b):
        it = self.it
        s = (str, VOpaque)
        if op == 'Add' and isinstance(a, s) and isinstance(b, s):
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            ps = [[x] if isinstance(x, str) else x.parts for x in (a, b)]
            return VOpaque('str', parts=ps[0] + ps[1] if all(ps) else None)
        if op == 'Mod' and isinstance(a, s):
            return VOpaque('str')
        if op == 'Mult':
            for x, n in ((a, b), (b, a)):
                if isinstance(x, s) and isinstance(n, VNum):
                    c = const_int(n)
                    return x * c if isinstance(x, str) and c is not None else VOpaque('str')
        it.raise_('TypeError', 'unsupported operand type(s) for a string')

    def unop(self, op, v):
        it = self.it
        if isinstance(v, VNum):
            if op == 'USub':
                return VNum(-v.t, v.k, v.np, v.jx)
            if op == 'UAdd':
                return v
            if op == 'Invert':
                c = const_int(v)
                if c is not None:
                    return I(~c)
        if isinstance(v, VBool):
            if op == 'Invert' and (v.np or v.jx):
                return VBool(c_not(v.c), v.np, v.jx)
            t = nm.as_term(v.c)
            return VNum(-t if op == 'USub' else t, 'int')
        if isinstance(v, VArr):
            if op == 'USub':
                return nm.map1(it, v, lambda x: -x)
            if op == 'UAdd':
                return it.mkarr(it.cells(v), v.shape, v.dt, v.jx, v.matrix)
            if op == 'Invert' and v.dt == 'bool':
                return nm.ew(it, lambda c: c_not(nm.as_cond(c)), [v], 'bool')
        if isinstance(v, VNative) and v.kind == 'quantity':
            return VNative('quantity', m=it.unop(op, v.d['m']), u=v.d['u'])
        if isinstance(v, VRef):
            m = it.find_special(v, {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op])
            if m is not None:
                return it.call(m, [v], {})
        it.raise_('TypeError', f'bad operand type for unary {op}')

    def is_(self, a, b):
        it = self.it
        if a is b:
            return TRUE
        if a is None or b is None:
            return FALSE
        if isinstance(a, VRef) and isinstance(b, VRef):
            return TRUE if a.id == b.id else FALSE
        if isinstance(a, VArr) and isinstance(b, VArr):
            return TRUE if a.key() == b.key() else FALSE
        if isinstance(a, VBool) and isinstance(b, VBool) and not a.np and not b.np:
            return tm.c_ite(a.c, b.c, c_not(b.c))
        if isinstance(a, str) and isinstance(b, str):
            return TRUE if a == b else FALSE
        if isinstance(a, VNum) and isinstance(b, VNum):
            x, y = const_int(a), const_int(b)
            if x is not None and y is not None:
                return TRUE if x == y else FALSE
            if a.t == b.t and a.k == b.k:
                return TRUE
            raise Unsupported('identity of numbers', it.where())
        if isinstance(a, VNative) and isinstance(b, VNative) and a.kind == b.kind and a.kind in ('ureg', 'NotImplemented', 'typing'):
            return TRUE if a.kind != 'ureg' or a.d.get('reg') == b.d.get('reg') else FALSE
        if isinstance(a, VFunc) and isinstance(b, VFunc) and a.node is b.node and a.frame == b.frame:
            return TRUE
        return FALSE

    def compare(self, op, a, b):
        it = self.it
        if op == 'Is':
            return VBool(self.is_(a, b))
        if op == 'IsNot':
            return VBool(c_not(self.is_(a, b)))
        if op == 'In':
            return VBool(self.contains(b, a))
        if op == 'NotIn':
            return VBool(c_not(self.contains(b, a)))
        num = (VNum, VBool)
        if isinstance(a, num) and isinstance(b, num):
            x, y = nm.opnd(it, a).c[0], nm.opnd(it, b).c[0]
            return VBool(nm.CMP[op](x, y), bool(getattr(a, 'np', None) or getattr(b, 'np', None)), nm.jmax(a.jx, b.jx))
        for x, y, i in ((a, b, 0), (b, a, 1)):
            if isinstance(x, VRef) and isinstance(it.deref(x), HInst):
                m = it.find_special(x, CMPD[op][i])
                if m is not None:
                    r = it.res(it.call(m, [x, y], {}))
                    if not (isinstance(r, VNative) and r.kind == 'NotImplemented'):
                        return r
                elif op == 'NotEq':
                    m = it.find_special(x, '__eq__')
                    if m is not None:
                        r = it.res(it.call(m, [x, y], {}))
                        if not (isinstance(r, VNative) and r.kind == 'NotImplemented'):
                            return VBool(c_not(it.truth(r)))
        if any(isinstance(x, VNative) and x.kind in ('quantity', 'unit') for x in (a, b)):
            return self.pint.compare(op, a, b)
        if isinstance(a, VArr) or isinstance(b, VArr):
            other = b if isinstance(a, VArr) else a
            if other is None or isinstance(other, (str, VClass, VFunc)) or (isinstance(other, VRef) and not isinstance(it.deref(other), HList)) or isinstance(other, VNative):
                if op in ('Eq', 'NotEq'):
                    arr = a if isinstance(a, VArr) else b
                    return it.mkarr([FALSE if op == 'Eq' else TRUE] * arr.size, arr.shape, 'bool', arr.jx)
                it.raise_('TypeError', 'comparison not supported')
            if op in ('Eq', 'NotEq'):
                oa, ob = nm.opnd_t(it, a), nm.opnd_t(it, b)
                if not (nm._can_broadcast(oa.shape, ob.shape) or nm._can_broadcast(ob.shape, oa.shape)) and len(oa.shape) == len(ob.shape) == 1:
                    it.raise_('ValueError', 'operands could not be broadcast together')
            return nm.ew(it, nm.CMP[op], [a, b], 'bool')
        if op in ('Eq', 'NotEq'):
            c = self.equal(a, b)
            return VBool(c if op == 'Eq' else c_not(c))
        # ordering
        if isinstance(a, str) and isinstance(b, str):
            return B({'Lt': a < b, 'Gt': a > b, 'LtE': a <= b, 'GtE': a >= b}[op])
        sa, sb = self.seq(a), self.seq(b)
        if sa is not None and sb is not None and type(a) is type(b):
            return VBool(self.lex(op, sa, sb))
        if isinstance(a, VRef) and isinstance(b, VRef):
            oa, ob = it.deref(a), it.deref(b)
            if isinstance(oa, HList) and isinstance(ob, HList) and oa.kind == ob.kind == 'set':
                x, y = {it.hkey(i) for i in oa.items}, {it.hkey(i) for i in ob.items}
                return B({'Lt': x < y, 'Gt': x > y, 'LtE': x <= y, 'GtE': x >= y}[op])
        it.raise_('TypeError', f"'{op}' not supported between instances of '{self.type_of(a).name}' and '{self.type_of(b).name}'")

    def lex(self, op, sa, sb):
        it = self.it
        if not sa or not sb:
            return nm.c_bool({'Lt': len(sa) < len(sb), 'Gt': len(sa) > len(sb), 'LtE': len(sa) <= len(sb), 'GtE': len(sa) >= len(sb)}[op])
        e = it.truth(it.compare('Eq', sa[0], sb[0]))
        l = it.truth(it.compare('Lt' if op in ('Lt', 'LtE') else 'Gt', sa[0], sb[0]))
        return c_or(l, c_and(e, self.lex(op, sa[1:], sb[1:])))

    def equal(self, a, b):
        it = self.it
        if a is b:
            return TRUE
        if a is None or b is None:
            return FALSE
        if isinstance(a, str) and isinstance(b, str):
            return TRUE if a == b else FALSE
        if isinstance(a, VOpaque) or isinstance(b, VOpaque):
            ta, tb = self.type_of(a), self.type_of(b)
            if ta is not tb:
                return FALSE
            raise Unsupported('comparison of unknown values', it.where())
        if isinstance(a, VTuple) and isinstance(b, VTuple):
            if len(a.items) != len(b.items):
                return FALSE
            return c_and(*[it.truth(it.compare('Eq', x, y)) for x, y in zip(a.items, b.items)]) if a.items else TRUE
        if isinstance(a, VRef) and isinstance(b, VRef):
            if a.id == b.id:
                return TRUE
            oa, ob = it.deref(a), it.deref(b)
            if isinstance(oa, HList) and isinstance(ob, HList) and oa.kind == ob.kind:
                if oa.kind == 'set':
                    return nm.c_bool({it.hkey(x) for x in oa.items} == {it.hkey(x) for x in ob.items})
                if len(oa.items) != len(ob.items):
                    return FALSE
                return c_and(*[it.truth(it.compare('Eq', x, y)) for x, y in zip(oa.items, ob.items)]) if oa.items else TRUE
            if isinstance(oa, HDict) and isinstance(ob, HDict):
                if set(oa.d) != set(ob.d):
                    return FALSE
                return c_and(*[it.truth(it.compare('Eq', oa.d[k][1], ob.d[k][1])) for k in oa.d]) if oa.d else TRUE
            return FALSE
        dn = [x for x in (a, b) if isinstance(x, VNative) and x.kind == 'dtype']
        if dn:
            try:
                return nm.c_bool(nm.dtype_name(it, a) == nm.dtype_name(it, b))
            except Unsupported:
                return FALSE
        if isinstance(a, VBound) and isinstance(b, VBound):
            return nm.c_bool(a.func is b.func and self.is_(a.self_, b.self_) is TRUE)
        return self.is_(a, b)

    def contains(self, c, x):
        it = self.it
        c = it.res(c)
        if isinstance(c, VRef):
            o = it.deref(c)
            if isinstance(o, HDict):
                x = it.res(x)
                if isinstance(x, VOpaque):
                    raise Unsupported('membership of an unknown string', it.where())
                return TRUE if it.hkey(x) in o.d else FALSE
            if isinstance(o, HInst):
                m = it.find_special(c, '__contains__')
                if m is not None:
                    return it.truth(it.call(m, [c, x], {}))
        if isinstance(c, str):
            if isinstance(x, str):
                return TRUE if x in c else FALSE
            if isinstance(x, VOpaque):
                raise Unsupported('substring test', it.where())
            it.raise_('TypeError', "'in <string>' requires string as left operand")
        if isinstance(c, VArr):
            return nm.fany(nm.opnd(it, it.compare('Eq', c, x)).c)
        r = FALSE
        for y in it.iterate(c):
            y = it.res(y)
            if self.is_same(x, y):
                return TRUE
            r = c_or(r, it.truth(it.compare('Eq', x, y)))
        return r

    def is_same(self, x, y):
        try:
            return self.is_(self.it.res(x), y) is TRUE
        except Unsupported:
            return False

    # ------------------------------------------------------------------ indexing
    def getitem(self, o, k):
        it = self.it
        if isinstance(o, VArr):
            return nm.getitem(it, o, k)
        if isinstance(o, VTuple):
            return self.seqitem(list(o.items), k, lambda s: VTuple(s), 'tuple')
        if isinstance(o, str):
            if isinstance(k, VSlice):
                return ''.join(o[i] for i in nm.slice_range(it, k, len(o)))
            n = const_int(k)
            if n is None or not -len(o) <= n < len(o):
                it.raise_('IndexError', 'string index out of range')
            return o[n]
        if isinstance(o, VRef):
            h = it.deref(o)
            if isinstance(h, HList):
                if h.kind in ('set', 'iter'):
                    it.raise_('TypeError', f"'{h.kind}' object is not subscriptable")
                return self.seqitem(list(h.items), k, lambda s: it.mklist(s), 'list')
            if isinstance(h, HDict):
                if isinstance(k, VOpaque):
                    raise Unsupported('lookup of an unknown key', it.where())
                e = h.d.get(it.hkey(k))
                if e is None:
                    if h.kind == 'defaultdict':
                        v = it.call(it.factories[o.id], [], {})
                        self.setitem(o, k, v)
                        return v
                    it.raise_('KeyError', (k,))
                return it.res(e[1])
            m = it.find_special(o, '__getitem__')
            if m is not None:
                return it.call(m, [o, k], {})
        if isinstance(o, VClass):
            m, owner = it.class_lookup(o, '__class_getitem__')
            if owner is not None:
                return it.call(m.func if isinstance(m, VClassMethod) else m, [o, k], {})
            if 'enum' in o.meta:
                return it.getattr(o, k)
            return VNative('typing', name=o.name, args=(k,), origin=o)
        if isinstance(o, VNative):
            if o.kind in ('typing', 'union'):
                args = k.items if isinstance(k, VTuple) else (k,)
                return VNative('typing', name=o.d.get('name', 'Union'), args=tuple(args))
            if o.kind == 'at':
                return VNative('atidx', a=o.d['a'], k=k)
            if o.kind == 'quantity':
                return VNative('quantity', m=self.getitem(it.res(o.d['m']), k), u=o.d['u'])
            if o.kind in ('r_', 'c_'):
                return npextra.grid_getitem(it, o, k)
            if o.kind == 'sctor':
                return k
        if isinstance(o, (VNum, VBool)) and (getattr(o, 'np', None) or o.jx):
            if k is Ellipsis or (isinstance(k, VTuple) and not k.items):
                return o
            it.raise_('IndexError', 'invalid index to scalar variable')
        if isinstance(o, VOpaque):
            raise Unsupported('subscript of an unknown value', it.where())
        if isinstance(o, VBuiltin) and o.attrs.get('unknown'):
            raise Unsupported(f'subscript of unmodelled {o.name}', it.where())
        it.raise_('TypeError', f"'{self.type_of(o).name}' object is not subscriptable")

    def seqitem(self, items, k, mk, what):
        it = self.it
        if isinstance(k, VSlice):
            return mk([items[i] for i in nm.slice_range(it, k, len(items))])
        if isinstance(k, VBool):
            k = VNum(nm.as_term(k.c), 'int')
        if isinstance(k, VNum):
            if k.k == 'float':
                it.raise_('TypeError', f'{what} indices must be integers or slices, not float')
            n = const_int(k)
            if n is None:
                return self.seqsym(items, k, what)
            if not -len(items) <= n < len(items):
                it.raise_('IndexError', f'{what} index out of range')
            return it.res(items[n])
        it.raise_('TypeError', f'{what} indices must be integers or slices, not {self.type_of(k).name}')

    def seqsym(self, items, k, what):
        """list/tuple lookup at a data-dependent integer"""
        it = self.it
        it.event('index', term=k.t, size=len(items), obj=None)
        items = [it.res(x) for x in items]
        if items and all(isinstance(x, VNum) for x in items):
            t = k.t
            neg = it.decide(tm.lt0(t))
            if neg is TRUE:
                t = t + T(len(items))
            elif neg is not FALSE:
                t = tm.ite(neg, t + T(len(items)), t)
            kk = 'int' if all(x.k == 'int' for x in items) else 'float'
            return VNum(nm.select_ite([x.t for x in items], (len(items),), [t]), kk)
        if items and all(isinstance(x, VTuple) or (isinstance(x, VRef) and isinstance(it.deref(x), HList)) for x in items):
            # rows of a nested table: keep the outer index pending
            arr = it.catch_unsupported(lambda: nm.array_of(it, it.mklist(items)))
            if arr is not None:
                return it.mklist(it.iterate(nm.getitem(it, arr, k)))
        # gate over the positions
        def go(n):
            if n == len(items) - 1:
                return items[n]
            c = tm.eq0(k.t - T(n))
            return it.branch(c, lambda: items[n], lambda: go(n + 1))
        return go(0)

    def setitem(self, o, k, v):
        it = self.it
        if isinstance(o, VArr):
            return nm.setitem(it, o, k, v)
        if isinstance(o, VRef):
            h = it.deref(o)
            if isinstance(h, HList) and h.kind == 'list':
                items = list(h.items)
                if isinstance(k, VSlice):
                    pos = nm.slice_range(it, k, len(items))
                    vals = it.iterate(v)
                    if k.st is None:
                        lo = pos[0] if pos else (const_int(it.res(k.lo)) if k.lo is not None else 0)
                        items[lo:(pos[-1] + 1 if pos else lo)] = vals
                    else:
                        for p, x in zip(pos, vals):
                            items[p] = x
                else:
                    n = const_int(k)
                    if n is None:
                        if isinstance(k, VNum) and k.k == 'int':
                            it.event('index', term=k.t, size=len(items), obj=None)
                            from .builtinsmodel import gate
                            items = [gate(it, tm.eq0(k.t - T(i)), v, x) for i, x in enumerate(items)]
                            it.put(o, HList(items, h.kind))
                            it.event('write', obj=o.id)
                            return
                        it.raise_('TypeError', 'list indices must be integers or slices')
                    if not -len(items) <= n < len(items):
                        it.raise_('IndexError', 'list assignment index out of range')
                    items[n] = v
                it.put(o, HList(items, h.kind))
                it.event('write', obj=o.id)
                return
            if isinstance(h, HDict):
                d = dict(h.d)
                d[it.hkey(k)] = (k, v)
                it.put(o, HDict(d, h.kind))
                it.event('write', obj=o.id)
                return
            m = it.find_special(o, '__setitem__')
            if m is not None:
                it.call(m, [o, k, v], {})
                return
        it.raise_('TypeError', f"'{self.type_of(o).name}' object does not support item assignment")

    def delitem(self, o, k):
        it = self.it
        if isinstance(o, VRef):
            h = it.deref(o)
            if isinstance(h, HDict):
                d = dict(h.d)
                if it.hkey(k) not in d:
                    it.raise_('KeyError', (k,))
                del d[it.hkey(k)]
                it.put(o, HDict(d, h.kind))
                it.event('write', obj=o.id)
                return
            if isinstance(h, HList):
                items = list(h.items)
                n = const_int(k)
                if n is None:
                    raise Unsupported('del of a slice', it.where())
                del items[n]
                it.put(o, HList(items, h.kind))
                it.event('write', obj=o.id)
                return
        it.raise_('TypeError', 'object does not support item deletion')

    # ------------------------------------------------------------------ attributes of values
    def getattr_value(self, o, name):
        it = self.it
        if isinstance(o, VArr):
            return self.nlib.attr(o, name)
        if isinstance(o, VNum) or isinstance(o, VBool):
            return self.numattr(o, name)
        if isinstance(o, str) or (isinstance(o, VOpaque) and o.typ == 'str'):
            return self.mods.strattr(o, name)
        if isinstance(o, VTuple):
            if o.fields and name in o.fields:
                return o.items[o.fields.index(name)]
            return self.mods.tupleattr(o, name)
        if isinstance(o, VRef):
            h = it.deref(o)
            if isinstance(h, HList):
                return self.mods.listattr(o, h, name)
            if isinstance(h, HDict):
                return self.mods.dictattr(o, h, name)
        if isinstance(o, VNative):
            if o.kind in ('quantity', 'unit', 'ureg'):
                return self.pint.attr(o, name)
            if o.kind == 'rotation':
                return self.rot.attr(o, name)
            if o.kind == 'dtype':
                if name == 'name':
                    return o.d['name']
                if name == 'type':
                    return self.npscalars.get(o.d['name'] + ('_' if o.d['name'] == 'bool' else ''), NotImplemented)
                if name == 'kind':
                    return {'float64': 'f', 'float32': 'f', 'int64': 'i', 'bool': 'b'}[o.d['name']]
                return NotImplemented
            if o.kind == 'finfo':
                if name in ('eps', 'tiny', 'max', 'min', 'resolution'):
                    return VNum(tm.sym(f'$finfo_{name}', 'pos') if name != 'min' else -tm.sym('$finfo_max', 'pos'), 'float', 'float64')
                return NotImplemented
            if o.kind == 'atidx':
                return self.at_method(o, name)
            return self.mods.nativeattr(o, name)
        if isinstance(o, VPartial):
            if name == 'func':
                return o.func
            if name == 'args':
                return VTuple(o.args)
            return NotImplemented
        if isinstance(o, VStatic):
            return it._getattr(o.func, name)
        if isinstance(o, VOpaque):
            raise Unsupported(f'attribute {name} of an unknown value', it.where())
        return NotImplemented

    def at_method(self, o, name):
        it = self.it
        a, k = o.d['a'], o.d['k']
        ops = {'set': None, 'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div'}

        def f(i, args, kw):
            tmp = it.mkarr(it.cells(a), a.shape, a.dt)
            cur = nm.getitem(it, tmp, k)
            v = it.res(args[0])
            jx = nm.jmax(a.jx, nm.opnd_t(it, v).jx)
            ov = nm.opnd_t(it, v)
            v = nm.wrap(it, ov.c, ov.shape, ov.dt, None, True)
            if name in ('min', 'max'):
                v = nm.ew(it, nm.nanprop(nm.tmin if name == 'min' else nm.tmax), [cur, v])
            elif ops[name] is not None:
                v = it.binop(ops[name], cur, v)
            nm.setitem(it, tmp, k, v)
            return it.mkarr(it.cells(tmp), tmp.shape, tmp.dt, jx)
        if name == 'get':
            return VBuiltin('at.get', lambda i, b, kw: nm.getitem(it, a, k))
        if name in ops or name in ('min', 'max'):
            return VBuiltin('at.' + name, f)
        return NotImplemented

    def numattr(self, o, name):
        it = self.it
        isnp = bool(getattr(o, 'np', None)) or o.jx is not None
        if isinstance(o, VIntMember):
            if name in ('value', '_value_'):
                return VNum(o.t, 'int')
            if name in ('name', '_name_'):
                return o.name
            cv, owner = it.class_lookup(o.cls, name)
            if owner is not None and owner.ns is not None:
                return it.bind_attr(cv, o, o.cls)
        if isinstance(o, VNum):
            if name == 'real':
                return o
            if name == 'imag':
                return VNum(T(0), o.k, o.np, o.jx)
            if name == 'is_integer' and o.k == 'float':
                return VBuiltin(name, lambda i, a, k: VBool(tm.eq0(tm.fn('floor', o.t) - o.t)))
            if name == 'conjugate':
                return VBuiltin(name, lambda i, a, k: o)
            if name == '__float__':
                return VBuiltin(name, lambda i, a, k: VNum(o.t, 'float'))
            if name == '__abs__':
                return VBuiltin(name, lambda i, a, k: VNum(tm.absv(o.t), o.k, o.np, o.jx))
        if not isnp:
            return NotImplemented
        if name == 'item' or name == 'tolist':
            def item(i, a, k):
                if o.jx == 'traced':
                    it.event('concretize', what='item() of a traced value')
                    it.raise_('TypeError', 'ConcretizationTypeError')
                return VBool(o.c) if isinstance(o, VBool) else VNum(o.t, o.k)
            return VBuiltin(name, item)
        if name in ('copy', '__copy__', '__deepcopy__', 'squeeze', 'conj', 'block_until_ready'):
            return VBuiltin(name, lambda i, a, k: o)
        if name == 'T':
            return o
        if name == 'dtype':
            return self.dtype('bool' if isinstance(o, VBool) else (o.np or ('int64' if o.k == 'int' else 'float64')))
        if name == 'shape':
            return VTuple(())
        if name == 'size':
            return I(1)
        if name == 'ndim':
            return I(0)
        lib = self.jlib if o.jx is not None and self.jlib is not None else self.nlib
        if name in ('sum', 'prod', 'mean', 'max', 'min', 'all', 'any', 'clip', 'round', 'dot'):
            return VBuiltin(name, lambda i, a, k: it.call(lib.ns[name], [o] + list(a), k))
        if name == 'astype':
            return VBuiltin(name, lambda i, a, k: lib.astype(o, nm.dtype_name(it, a[0])))
        if name in ('reshape', 'ravel', 'flatten'):
            return VBuiltin(name, lambda i, a, k: it.mkarr(nm.opnd(it, o).c, (1,), nm.opnd(it, o).dt, o.jx))
        if name == 'at':
            return NotImplemented
        return NotImplemented

    def class_attr(self, c, name):
        if name == '__dict__' and c.ns is not None:
            return self.it.mkdict([(k, v) for k, v in self.it.deref(c.ns).vars.items()])
        if name == '__dict__' and c.name in ('object', 'ABC', 'Generic', 'Protocol'):
            return self.it.mkdict([(k, v) for k, v in c.nmethods.items()])
        if name == '__doc__':
            return VOpaque('str')
        if name == '__annotations__':
            return self.it.mkdict([(a.target.id, VNative('typing', name='Any')) for a in c.meta.get('ann', [])])
        if name in ('__subclasses__',):
            raise Unsupported('__subclasses__')
        if name == '__eq__':
            return NotImplemented
        m = self.mods.classattr(c, name)
        return NotImplemented if m is None else m

    def call_native(self, f, args, kwargs):
        if f.kind == 'dtypefn':
            return NotImplemented
        return self.mods.call_native(f, args, kwargs)
