"""Model of the Python builtins used by the analysed package."""
from __future__ import annotations

from fractions import Fraction

from . import terms as tm
from .terms import T, Term, TRUE, FALSE, c_and, c_or, c_not
from .values import *

EXC = {
    'BaseException': 'object', 'Exception': 'BaseException', 'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'FloatingPointError': 'ArithmeticError',
    'AssertionError': 'Exception', 'AttributeError': 'Exception', 'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError',
    'LookupError': 'Exception', 'IndexError': 'LookupError', 'KeyError': 'LookupError', 'NameError': 'Exception',
    'UnboundLocalError': 'NameError', 'OSError': 'Exception', 'FileNotFoundError': 'OSError', 'RuntimeError': 'Exception',
    'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError', 'StopIteration': 'Exception', 'TypeError': 'Exception',
    'ValueError': 'Exception', 'UnicodeError': 'ValueError', 'Warning': 'Exception', 'UserWarning': 'Warning',
    'RuntimeWarning': 'Warning', 'DeprecationWarning': 'Warning', 'FutureWarning': 'Warning', 'PendingDeprecationWarning': 'Warning',
    'SyntaxWarning': 'Warning', 'BufferError': 'Exception', 'EOFError': 'Exception', 'MemoryError': 'Exception',
}


def num(it, v):
    """Term of a number-like value"""
    v = it.res(v)
    if isinstance(v, VNum):
        return v.t
    if isinstance(v, VBool):
        return tm.ite(v.c, tm.ONE, tm.ZERO)
    if isinstance(v, VArr) and v.size == 1:
        c = it.cells(v)[0]
        return c if isinstance(c, Term) else tm.ite(c, tm.ONE, tm.ZERO)
    if isinstance(v, VNative) and v.kind == 'quantity':
        raise Unsupported('number of a quantity')
    it.raise_('TypeError', 'a number is required')


def trunc(t):
    c = t.const()
    if c is not None:
        return T(int(c))
    return tm.ite(tm.lt0(t), tm.fn('ceil', t), tm.fn('floor', t))


def sum_values(it, items, start):
    acc = start
    for x in items:
        acc = it.binop('Add', acc, x)
    return acc


def extreme(it, items, op, key=None):
    best = items[0]
    kb = it.call(key, [best], {}) if key is not None else best
    for x in items[1:]:
        kx = it.call(key, [x], {}) if key is not None else x
        c = it.decide(it.truth(it.compare(op, kx, kb)))
        if c is TRUE:
            best, kb = x, kx
        elif c is FALSE:
            pass
        else:
            best = gate(it, c, x, best)
            kb = gate(it, c, kx, kb)
    return best


def gate(it, c, a, b):
    a, b = it.res(a), it.res(b)
    if isinstance(a, (VNum, VBool)) and isinstance(b, (VNum, VBool)):
        if isinstance(a, VBool) and isinstance(b, VBool):
            return VBool(tm.c_ite(c, a.c, b.c))
        ka = a.k if isinstance(a, VNum) else 'int'
        kb = b.k if isinstance(b, VNum) else 'int'
        return VNum(tm.ite(c, num(it, a), num(it, b)), ka if ka == kb else 'float',
                    getattr(a, 'np', None) or getattr(b, 'np', None), getattr(a, 'jx', None) or getattr(b, 'jx', None))
    return VPhi(c, a, b)


def make(it):
    b = {}
    obj = VClass('object', [], native='object')
    b['object'] = obj

    def dflt_setattr(i, a, k):
        i.default_setattr(i.res(a[0]), a[1], a[2], force=True)

    def dflt_getattribute(i, a, k):
        return i.getattr(a[0], a[1])
    obj.nmethods = {
        '__setattr__': VBuiltin('object.__setattr__', dflt_setattr, {'method': True}),
        '__getattribute__': VBuiltin('object.__getattribute__', dflt_getattribute, {'method': True}),
        '__init__': VBuiltin('object.__init__', lambda i, a, k: None, {'method': True}),
        '__init_subclass__': VClassMethod(VBuiltin('object.__init_subclass__', lambda i, a, k: None)),
        '__new__': VStatic(VBuiltin('object.__new__', lambda i, a, k: i.new(HInst(i.res(a[0]), {})))),
    }
    obj.construct = None

    def exc_construct(i, cls, args, kwargs):
        o = i.new(HInst(cls, {'args': VTuple(args)}))
        init, owner = i.class_lookup(cls, '__init__')
        if owner is not None and owner.ns is not None:
            i.call(init, [o] + list(args), kwargs)
        return o
    for n, p in EXC.items():
        c = VClass(n, [b[p]], native=n)
        c.meta['construct_sub'] = exc_construct
        if n == 'BaseException':
            c.nmethods['__init__'] = VBuiltin('BaseException.__init__', lambda i, a, k: None, {'method': True})
            c.nmethods['__str__'] = VBuiltin('BaseException.__str__', lambda i, a, k: VOpaque('str'), {'method': True})
        b[n] = c

    def cls(name, construct, base='object'):
        c = VClass(name, [b[base]], native=name, construct=construct)
        b[name] = c
        return c

    def c_int(i, c, a, k):
        if not a:
            return I(0)
        v = i.res(a[0])
        if isinstance(v, str):
            try:
                return I(int(v))
            except ValueError:
                i.raise_('ValueError', 'invalid literal for int()')
        if isinstance(v, VNum) and v.k == 'int':
            return VNum(v.t, 'int')
        if v is None:
            i.raise_('TypeError', 'int() argument must not be NoneType')
        return VNum(trunc(num(i, v)), 'int')

    def c_float(i, c, a, k):
        if not a:
            return pynum(0.0)
        v = i.res(a[0])
        if isinstance(v, str):
            try:
                return VNum(T(float(v)), 'float')
            except ValueError:
                i.raise_('ValueError', 'could not convert string to float')
        if isinstance(v, VNative) and v.kind == 'quantity':
            q = i.ext.pint.to_dimensionless(i, v)
            return c_float(i, c, [q], {})
        if not isinstance(v, (VNum, VBool, VArr)):
            m = i.find_special(v, '__float__')
            if m is not None:
                return i.call(m, [v], {})
            i.raise_('TypeError', 'float() argument must be a number')
        if getattr(v, 'jx', None) == 'traced':
            i.event('concretize', what='float()')
        return VNum(num(i, v), 'float')

    def c_bool(i, c, a, k):
        return VBool(i.truth(a[0])) if a else B(False)

    def c_str(i, c, a, k):
        if not a:
            return ''
        v = i.res(a[0])
        if isinstance(v, str):
            return v
        n = const_int(v)
        if n is not None and isinstance(v, VNum):
            return str(n if v.k == 'int' else float(n))
        return VOpaque('str')

    def c_list(i, c, a, k):
        return i.mklist(i.iterate(a[0]) if a else [])

    def c_tuple(i, c, a, k):
        return VTuple(i.iterate(a[0]) if a else [])

    def c_set(i, c, a, k):
        return i.mkset(i.iterate(a[0]) if a else [])

    def c_dict(i, c, a, k):
        pairs = []
        if a:
            v = i.res(a[0])
            o = i.deref(v) if isinstance(v, VRef) else None
            if isinstance(o, HDict):
                pairs = list(o.d.values())
            else:
                pairs = [tuple(i.iterate(x)) for x in i.iterate(v)]
        pairs = list(pairs) + list(k.items())
        return i.mkdict(pairs)

    def c_type(i, c, a, k):
        if len(a) == 1:
            return i.type_of(i.res(a[0]))
        d = i.deref(i.res(a[2])) if len(a) == 3 and isinstance(i.res(a[2]), VRef) else None
        if k or not isinstance(d, HDict) or not isinstance(a[0], str):
            raise Unsupported('type() with these arguments', i.where())
        return i.make_class(a[0], i.iterate(a[1]), {i.res(n): i.res(v) for n, v in d.d.values()})

    def c_range(i, c, a, k):
        ns = []
        for x in a:
            x = i.res(x)
            n = const_int(x)
            if n is None:
                if isinstance(x, VNum) and x.k == 'float':
                    i.raise_('TypeError', "'float' object cannot be interpreted as an integer")
                raise Unsupported('range() with a symbolic bound', i.where())
            ns.append(n)
        return VTuple([I(x) for x in range(*ns)], cls='range')

    def c_property(i, c, a, k):
        return VProperty(*(a[:3]), **{x: k[x] for x in ('fget', 'fset', 'fdel') if x in k})

    def c_enumerate(i, c, a, k):
        start = k.get('start', a[1] if len(a) > 1 else I(0))
        s = const_int(i.res(start))
        return i.mklist([VTuple((I(n + s), x)) for n, x in enumerate(i.iterate(a[0]))], 'iter')

    def c_zip(i, c, a, k):
        its = [i.iterate(x) for x in a]
        if 'strict' in k and i.decide(i.truth(k['strict'])) is TRUE and len({len(x) for x in its}) > 1:
            i.raise_('ValueError', 'zip() arguments have different lengths')
        return i.mklist([VTuple(t) for t in zip(*its)], 'iter')

    def c_map(i, c, a, k):
        its = [i.iterate(x) for x in a[1:]]
        return i.mklist([i.call(a[0], list(t), {}) for t in zip(*its)], 'iter')

    def c_filter(i, c, a, k):
        out = []
        for x in i.iterate(a[1]):
            cc = i.decide(i.truth(x if i.res(a[0]) is None else i.call(a[0], [x], {})))
            if cc is TRUE:
                out.append(x)
            elif cc is not FALSE:
                raise NeedSplit(cc)
        return i.mklist(out, 'iter')

    def c_reversed(i, c, a, k):
        return i.mklist(list(reversed(i.iterate(a[0]))), 'iter')

    def c_slice(i, c, a, k):
        a = list(a)
        if len(a) == 1:
            a = [None, a[0]]
        while len(a) < 3:
            a.append(None)
        return VSlice(*a)

    cls('int', c_int)
    cls('float', c_float)
    VClass_bool = VClass('bool', [b['int']], native='bool', construct=c_bool)
    b['bool'] = VClass_bool
    cls('complex', lambda i, c, a, k: (_ for _ in ()).throw(Unsupported('complex')))
    cls('str', c_str)
    cls('bytes', lambda i, c, a, k: VOpaque('bytes'))
    cls('list', c_list)
    cls('tuple', c_tuple)
    cls('set', c_set)
    cls('frozenset', c_set)
    cls('dict', c_dict)
    cls('type', c_type)
    cls('range', c_range)
    cls('property', c_property)
    cls('enumerate', c_enumerate)
    cls('zip', c_zip)
    cls('map', c_map)
    cls('filter', c_filter)
    cls('reversed', c_reversed)
    cls('slice', c_slice)
    cls('staticmethod', lambda i, c, a, k: VStatic(a[0]))
    cls('classmethod', lambda i, c, a, k: VClassMethod(a[0]))
    cls('NoneType', lambda i, c, a, k: None)
    cls('function', None)
    cls('module', None)
    cls('super', lambda i, c, a, k: VSuper(i.res(a[0]), i.res(a[1])))
    b['dict'].nmethods['fromkeys'] = VStatic(VBuiltin('dict.fromkeys', lambda i, a, k: i.mkdict(
        [(x, a[1] if len(a) > 1 else None) for x in i.iterate(a[0])])))

    def fn(name):
        def deco(f):
            b[name] = VBuiltin(name, f)
            return f
        return deco

    @fn('len')
    def f_len(i, a, k):
        v = i.res(a[0])
        return I(i.ext.length(v))

    @fn('isinstance')
    def f_isinstance(i, a, k):
        return VBool(i.ext.isinstance_c(i.res(a[0]), i.res(a[1])))

    @fn('issubclass')
    def f_issubclass(i, a, k):
        c = i.res(a[0])
        t = i.res(a[1])
        ts = i.iterate(t) if isinstance(t, VTuple) else [t]
        return B(any(c.issub(i.ext.as_class(i.res(x))) for x in ts))

    @fn('hasattr')
    def f_hasattr(i, a, k):
        o = i.res(a[0])
        n = a[1]
        if isinstance(o, VRef):
            ob = i.deref(o)
            if isinstance(ob, HInst):
                if n in ob.attrs and i.res(ob.attrs[n]) is not UNDEF:
                    return B(True)
                cv, owner = i.class_lookup(ob.cls, n)
                if owner is not None and not isinstance(cv, VProperty):
                    return B(True)
                if owner is not None or i.class_lookup(ob.cls, '__getattr__')[1] is not None:
                    # a property or __getattr__ may itself raise AttributeError
                    r = i.attempt(lambda: (i.getattr(o, n), B(True))[1], i.builtins['AttributeError'], B(False))
                    return r
        return B(i.getattr(o, n, default=UNDEF) is not UNDEF)

    @fn('getattr')
    def f_getattr(i, a, k):
        n = i.res(a[1])
        if not isinstance(n, str):
            raise Unsupported('getattr with a non-constant name', i.where())
        if len(a) > 2:
            o = i.res(a[0])
            if isinstance(o, VRef) and isinstance(i.deref(o), HInst):
                cv, owner = i.class_lookup(i.deref(o).cls, n)
                if isinstance(cv, VProperty) or (owner is None and i.class_lookup(i.deref(o).cls, '__getattr__')[1] is not None):
                    return i.attempt(lambda: i.getattr(o, n, default=a[2]), i.builtins['AttributeError'], a[2])
            return i.getattr(a[0], n, default=a[2])
        return i.getattr(a[0], n)

    @fn('setattr')
    def f_setattr(i, a, k):
        n = i.res(a[1])
        if not isinstance(n, str):
            raise Unsupported('setattr with a non-constant name', i.where())
        i.setattr(a[0], n, a[2])

    @fn('delattr')
    def f_delattr(i, a, k):
        o = i.res(a[0])
        ob = i.deref(o) if isinstance(o, VRef) else None
        if not isinstance(ob, HInst) or i.class_lookup(ob.cls, a[1])[1] is not None:
            raise Unsupported('delattr', i.where())
        if a[1] not in ob.attrs:
            i.raise_('AttributeError', a[1])
        d = dict(ob.attrs)
        d.pop(a[1], None)
        i.put(o, HInst(ob.cls, d))

    @fn('callable')
    def f_callable(i, a, k):
        v = i.res(a[0])
        if isinstance(v, (VFunc, VBound, VBuiltin, VClass, VPartial)):
            return B(True)
        return B(isinstance(v, VRef) and i.has_method(v, '__call__'))

    @fn('print')
    def f_print(i, a, k):
        k = {n: i.res(x) for n, x in k.items()}
        i.event('print', what=[i.res(x) for x in a], sep=k.get('sep', ' '), end=k.get('end', '\n'), file=k.get('file'))

    @fn('repr')
    def f_repr(i, a, k):
        return VOpaque('str')

    b['format'] = VBuiltin('format', f_repr)
    b['ascii'] = VBuiltin('ascii', f_repr)

    @fn('id')
    def f_id(i, a, k):
        v = i.res(a[0])
        if isinstance(v, VRef):
            return VNum(tm.sym(f'id#{v.id}', 'int'), 'int')
        return VNum(tm.sym(f'id@{id(v)}', 'int'), 'int')

    @fn('hash')
    def f_hash(i, a, k):
        i.hkey(a[0])
        return VNum(tm.sym('hash', 'int'), 'int')

    @fn('abs')
    def f_abs(i, a, k):
        v = i.res(a[0])
        if isinstance(v, VNum):
            return VNum(tm.absv(v.t), v.k, v.np, v.jx)
        if isinstance(v, VArr):
            return i.ext.npm.map1(i, v, tm.absv)
        if isinstance(v, VBool):
            return VNum(num(i, v), 'int')
        m = i.find_special(v, '__abs__')
        if m is not None:
            return i.call(m, [v], {})
        if isinstance(v, VNative) and v.kind == 'quantity':
            return VNative('quantity', m=f_abs(i, [v.d['m']], {}), u=v.d['u'])
        i.raise_('TypeError', 'bad operand type for abs()')

    def minmax(op, name):
        def f(i, a, k):
            items = i.iterate(a[0]) if len(a) == 1 else list(a)
            if not items:
                if 'default' in k:
                    return k['default']
                i.raise_('ValueError', f'{name}() arg is an empty sequence')
            return extreme(i, items, op, k.get('key'))
        b[name] = VBuiltin(name, f)
    minmax('Lt', 'min')
    minmax('Gt', 'max')

    @fn('sum')
    def f_sum(i, a, k):
        return sum_values(i, i.iterate(a[0]), a[1] if len(a) > 1 else k.get('start', I(0)))

    @fn('all')
    def f_all(i, a, k):
        c = TRUE
        for x in i.iterate(a[0]):
            c = c_and(c, i.truth(x))
        return VBool(c)

    @fn('any')
    def f_any(i, a, k):
        c = FALSE
        for x in i.iterate(a[0]):
            c = c_or(c, i.truth(x))
        return VBool(c)

    @fn('sorted')
    def f_sorted(i, a, k):
        items = i.iterate(a[0])
        key = k.get('key')
        keys = [i.res(i.call(key, [x], {}) if key is not None else x) for x in items]

        def pk(v):
            if isinstance(v, str):
                return v
            if isinstance(v, VNum) and v.t.const() is not None:
                return v.t.const()
            if isinstance(v, VTuple):
                return tuple(pk(i.res(x)) for x in v.items)
            raise Unsupported('sorted() on symbolic keys', i.where())
        rev = 'reverse' in k and i.decide(i.truth(k['reverse'])) is TRUE
        if any(isinstance(v, VRef) and isinstance(i.deref(v), HInst) for v in keys):
            import functools
            order = sorted(range(len(items)), reverse=rev, key=functools.cmp_to_key(
                lambda x, y: -1 if i.decide(i.truth(i.compare('Lt', keys[x], keys[y]))) is TRUE else
                (1 if i.decide(i.truth(i.compare('Lt', keys[y], keys[x]))) is TRUE else 0)))
        else:
            order = sorted(range(len(items)), key=lambda n: pk(keys[n]), reverse=rev)
        return i.mklist([items[n] for n in order])

    @fn('iter')
    def f_iter(i, a, k):
        if len(a) > 1:
            out = []
            while True:
                v = i.call(a[0], [], {})
                c = i.decide(i.truth(i.compare('Eq', v, a[1])))
                if c is TRUE:
                    return i.mklist(out, 'iter')
                if c is not FALSE or len(out) > 10000:
                    raise Unsupported('data-dependent iteration', i.where())
                out.append(v)
        return i.mklist(i.iterate(a[0]), 'iter')

    @fn('next')
    def f_next(i, a, k):
        v = i.res(a[0])
        o = i.deref(v) if isinstance(v, VRef) else None
        if not isinstance(o, HList):
            m = i.find_special(v, '__next__')
            if m is not None:
                return i.call(m, [v], {})
            raise Unsupported('next() of a non-iterator')
        if not o.items:
            if len(a) > 1:
                return a[1]
            i.raise_('StopIteration', '')
        i.put(v, HList(o.items[1:], o.kind))
        return o.items[0]

    @fn('ord')
    def f_ord(i, a, k):
        if not isinstance(a[0], str):
            raise Unsupported('ord of an unknown value', i.where())
        return VNum(T(ord(a[0])), 'int')

    @fn('chr')
    def f_chr(i, a, k):
        n = const_int(i.res(a[0]))
        if n is None:
            raise Unsupported('chr of an unknown value', i.where())
        return chr(n)

    @fn('round')
    def f_round(i, a, k):
        v = num(i, a[0])
        nd = a[1] if len(a) > 1 else k.get('ndigits')
        c = v.const()
        if nd is None:
            return VNum(tm.fn('round', v), 'int')
        n = const_int(i.res(nd))
        if c is not None and n is not None:
            return VNum(T(round(c, n)), 'float')
        return VNum(tm.fn('round', v, num(i, nd)), 'float')

    @fn('pow')
    def f_pow(i, a, k):
        if len(a) > 2 or k:
            ns = [const_int(i.res(x)) for x in a]
            if k or None in ns or not ns[2] or ns[1] < 0:
                raise Unsupported('pow() with a modulus', i.where())
            return VNum(T(pow(*ns)), 'int')
        return i.binop('Pow', a[0], a[1])

    @fn('divmod')
    def f_divmod(i, a, k):
        return VTuple((i.binop('FloorDiv', a[0], a[1]), i.binop('Mod', a[0], a[1])))

    @fn('vars')
    def f_vars(i, a, k):
        return i.getattr(a[0], '__dict__')

    @fn('dir')
    def f_dir(i, a, k):
        raise Unsupported('dir()')

    @fn('globals')
    def f_globals(i, a, k):
        raise Unsupported('globals()')

    b['locals'] = VBuiltin('locals', f_globals)
    for n in ('eval', 'exec', 'compile', 'open', 'input', '__import__'):
        def bad(i, a, k, n=n):
            i.event('unsafe', what=n)
            raise Unsupported(n + '()', i.where())
        b[n] = VBuiltin(n, bad)
    b['NotImplemented'] = VNative('NotImplemented')
    b['Ellipsis'] = Ellipsis
    b['__debug__'] = B(True)
    b['True'], b['False'], b['None'] = B(True), B(False), None
    return b
