"""Abstract values of the whole-program analysis."""
from __future__ import annotations

from fractions import Fraction

from . import terms as tm
from .terms import T, Term, Cond, TRUE, FALSE


class Unsupported(Exception):
    """a construct outside the modelled fragment: the obligation stays undecided"""

    def __init__(self, msg, where=None):
        super().__init__(msg)
        self.msg = msg
        self.where = where


class PathDead(Exception):
    """the current abstract path ended (return / raise / break / continue)"""


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class VNum:
    """a Python or numpy number: algebraic value t, kind int|float, np dtype name or None"""
    __slots__ = ('t', 'k', 'np', 'jx')

    def __init__(self, t, k='float', np=None, jx=None):
        self.t = T(t)
        self.k = k
        self.np = np
        self.jx = jx          # None | 'jax' | 'traced'

    def __repr__(self):
        return f'Num({self.t!r}:{self.k})'


class VIntMember(VNum):
    """a member of an integer enumeration"""
    __slots__ = ('cls', 'name')

    def __init__(self, t, cls, name):
        super().__init__(t, 'int')
        self.cls, self.name = cls, name


class VBool:
    __slots__ = ('c', 'np', 'jx')

    def __init__(self, c, np=False, jx=None):
        self.c = c
        self.np = np
        self.jx = jx

    def __repr__(self):
        return f'Bool({self.c!r})'


class VTuple:
    __slots__ = ('items', 'fields', 'cls')

    def __init__(self, items, fields=None, cls=None):
        self.items = tuple(items)
        self.fields = fields
        self.cls = cls

    def __repr__(self):
        return f'Tuple{self.items!r}'


class VRef:
    """reference to a heap object"""
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, VRef) and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))

    def __repr__(self):
        return f'Ref#{self.id}'


class VArr:
    """view of an array buffer: flat positions idx, with a shape"""
    __slots__ = ('buf', 'idx', 'shape', 'dt', 'jx', 'matrix')

    def __init__(self, buf, idx, shape, dt, jx=None, matrix=False):
        self.buf = buf
        self.idx = tuple(idx)
        self.shape = tuple(shape)
        self.dt = dt          # 'float64','float32','int64','bool'
        self.jx = jx          # None | 'jax' | 'traced'
        self.matrix = matrix

    @property
    def size(self):
        return len(self.idx)

    @property
    def ndim(self):
        return len(self.shape)

    def key(self):
        return (self.buf, self.idx, self.shape, self.dt, self.jx, self.matrix)

    def __repr__(self):
        return f'Arr#{self.buf}{self.shape}'


class VPhi:
    """gated value: a when c else b"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f'Phi({self.c!r}, {self.a!r}, {self.b!r})'


class VUndef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = VUndef()


NONE = type('NoneValue', (), {})()     # a name of an external module bound to None


class VOpaque:
    """a value of a known type with unknown contents (strings built from symbols etc.)"""
    __slots__ = ('typ', 'why', 'parts')

    def __init__(self, typ, why='', parts=None):
        self.typ = typ
        self.why = why
        self.parts = parts      # of a string: known text and (formatted value, specification) pairs

    def __repr__(self):
        return f'Opaque<{self.typ}>'


class VFunc:
    __slots__ = ('node', 'module', 'frame', 'defaults', 'kwdefaults', 'name', 'qualname', 'cls', 'abstract',
                 'attrs', 'scope', 'isgen')

    def __init__(self, node, module, frame, defaults, kwdefaults, name, qualname, scope):
        self.node, self.module, self.frame = node, module, frame
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name, self.qualname = name, qualname
        self.cls = None
        self.abstract = False
        self.attrs = {}
        self.scope = scope
        self.isgen = False

    def __repr__(self):
        return f'<function {self.qualname}>'


class VBuiltin:
    __slots__ = ('name', 'fn', 'attrs')

    def __init__(self, name, fn, attrs=None):
        self.name, self.fn = name, fn
        self.attrs = attrs or {}

    def __repr__(self):
        return f'<builtin {self.name}>'


class VBound:
    __slots__ = ('func', 'self_')

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return f'<bound {self.func!r}>'


class VPartial:
    __slots__ = ('func', 'args', 'kwargs')

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, tuple(args), dict(kwargs)


class VProperty:
    __slots__ = ('fget', 'fset', 'fdel', 'abstract', 'cached')

    def __init__(self, fget=None, fset=None, fdel=None, abstract=False, cached=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel
        self.abstract = abstract
        self.cached = cached


class VStatic:
    __slots__ = ('func',)

    def __init__(self, func):
        self.func = func


class VClassMethod:
    __slots__ = ('func',)

    def __init__(self, func):
        self.func = func


class VSuper:
    __slots__ = ('cls', 'self_')

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class VModule:
    """analysed module: namespace frame in the heap"""
    __slots__ = ('name', 'frame', 'path')

    def __init__(self, name, frame, path):
        self.name, self.frame, self.path = name, frame, path

    def __repr__(self):
        return f'<module {self.name}>'


class VExtModule:
    """modelled library module"""
    __slots__ = ('name', 'get')

    def __init__(self, name, get):
        self.name, self.get = name, get

    def __repr__(self):
        return f'<lib {self.name}>'


class VNative:
    """immutable modelled library object"""
    __slots__ = ('kind', 'd')

    def __init__(self, kind, **d):
        self.kind = kind
        self.d = d

    def __repr__(self):
        return f'<{self.kind}>'


class VSlice:
    __slots__ = ('lo', 'hi', 'st')

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class VClass:
    """user or modelled class"""

    def __init__(self, name, bases, ns=None, module=None, node=None, native=None, nmethods=None, construct=None, qualname=None):
        self.name = name
        self.qualname = qualname or name
        self.bases = list(bases)
        self.ns = ns                  # heap id of the namespace frame (user classes)
        self.module = module
        self.node = node
        self.native = native          # python-side name for modelled classes
        self.nmethods = nmethods or {}
        self.construct = construct    # python callable(interp, cls, args, kwargs)
        self.meta = {}
        self.mro = _c3(self)

    def __repr__(self):
        return f'<class {self.name}>'

    def issub(self, o):
        return o in self.mro


def _c3(cls):
    def merge(seqs):
        res = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('inconsistent MRO')
            res.append(c)
            seqs = [[x for x in t if x is not c] for t in seqs]
            seqs = [t for t in seqs if t]
        return res
    return [cls] + merge([b.mro for b in cls.bases] + [cls.bases])


# ------------------------------------------------------------------ heap objects (never mutated in place)
class HFrame:
    __slots__ = ('vars', 'parent', 'module', 'kind', 'owner')

    def __init__(self, vars, parent, module, kind, owner=None):
        self.vars, self.parent, self.module, self.kind, self.owner = vars, parent, module, kind, owner

    def with_vars(self, v):
        return HFrame(v, self.parent, self.module, self.kind, self.owner)


class HInst:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class HList:
    __slots__ = ('items', 'kind')

    def __init__(self, items, kind='list'):
        self.items = tuple(items)
        self.kind = kind          # list | set | iter | deque


class HDict:
    __slots__ = ('d', 'kind')

    def __init__(self, d, kind='dict'):
        self.d = d                # hkey -> (keyvalue, value)
        self.kind = kind


class HBuf:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)         # Term | Cond cells


class HPhi:
    """gated heap object"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class State:
    __slots__ = ('heap', 'pc')

    def __init__(self, heap, pc):
        self.heap, self.pc = heap, pc

    def fork(self, c=None):
        return State(dict(self.heap), self.pc if c is None else tm.c_and(self.pc, c))


def const_int(v):
    """concrete python int of a value or None"""
    if isinstance(v, VBool):
        if v.c is TRUE:
            return 1
        if v.c is FALSE:
            return 0
        return None
    if isinstance(v, VNum):
        c = v.t.const()
        if c is not None and c.denominator == 1 and v.k == 'int':
            return int(c)
    return None


def pynum(x):
    """abstract value of a python constant"""
    if isinstance(x, bool):
        return VBool(TRUE if x else FALSE)
    if isinstance(x, int):
        return VNum(T(x), 'int')
    if isinstance(x, float):
        return VNum(T(x), 'float')
    raise TypeError(x)


def B(x):
    return VBool(TRUE if x else FALSE)


def I(x):
    return VNum(T(x), 'int')
