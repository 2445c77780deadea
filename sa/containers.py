"""Methods of str, tuple, list, set and dict."""
from __future__ import annotations

from . import terms as tm
from .terms import T, TRUE, FALSE
from .values import *


def strattr(it, o, name):
    if isinstance(o, VOpaque) or name in ('format', 'encode'):
        return VBuiltin('str.' + name, lambda i, a, k: VOpaque('str'))
    if name in ('value', '_value_'):
        return o                    # a member of a string enumeration
    if name in ('name', '_name_'):
        raise Unsupported('name of a string enumeration member', it.where())
    if not hasattr(str, name):
        return NotImplemented

    def f(i, a, k):
        args = []
        for x in a:
            x = i.res(x)
            if isinstance(x, str):
                args.append(x)
            elif x is None:
                args.append(None)
            elif isinstance(x, VOpaque):
                return VOpaque('str')
            elif const_int(x) is not None:
                args.append(const_int(x))
            elif name == 'join' or isinstance(x, VTuple):
                items = [i.res(y) for y in i.iterate(x)]
                if not all(isinstance(y, str) for y in items):
                    if all(isinstance(y, (str, VOpaque)) for y in items):
                        parts = []
                        for n, y in enumerate(items):
                            if parts is None or isinstance(y, VOpaque) and not y.parts:
                                parts = None
                                break
                            parts += ([o] if n else []) + ([y] if isinstance(y, str) else y.parts)
                        return VOpaque('str', parts=parts)
                    i.raise_('TypeError', 'sequence item: expected str instance')
                args.append(tuple(items))
            else:
                raise Unsupported(f'str.{name}', i.where())
        try:
            r = getattr(o, name)(*args)
        except ValueError as e:
            i.raise_('ValueError', str(e))
        except TypeError as e:
            i.raise_('TypeError', str(e))
        return back(i, r)
    return VBuiltin('str.' + name, f)


def back(i, r):
    if isinstance(r, str) or r is None:
        return r
    if isinstance(r, bool):
        return B(r)
    if isinstance(r, int):
        return I(r)
    if isinstance(r, tuple):
        return VTuple([back(i, x) for x in r])
    if isinstance(r, list):
        return i.mklist([back(i, x) for x in r])
    raise Unsupported('string result')


def _same(i, x, y):
    c = i.decide(i.truth(i.compare('Eq', x, y)))
    return c is TRUE, c is FALSE


def _index(i, items, x, what):
    for n, y in enumerate(items):
        t, f = _same(i, i.res(y), x)
        if t:
            return I(n)
        if not f:
            raise Unsupported(f'{what}.index of symbolic items', i.where())
    i.raise_('ValueError', f'not in {what}')


def tupleattr(it, o, name):
    if name == 'index':
        return VBuiltin('index', lambda i, a, k: _index(i, list(o.items), a[0], 'tuple'))
    if name == 'count':
        return VBuiltin('count', lambda i, a, k: _count(i, o.items, a[0]))
    if o.fields:
        if name == '_asdict':
            return VBuiltin(name, lambda i, a, k: i.mkdict(list(zip(o.fields, o.items))))
        if name == '_fields':
            return VTuple(o.fields)
        if name == '_replace':
            return VBuiltin(name, lambda i, a, k: VTuple([k.get(f, v) for f, v in zip(o.fields, o.items)], o.fields, o.cls))
    if isinstance(o.cls, VClass):
        cv, owner = it.class_lookup(o.cls, name)
        if owner is not None:
            return it.bind_attr(cv, o, o.cls)
    return NotImplemented


def _count(i, items, x):
    s = tm.ZERO
    for y in items:
        s = s + tm.ite(i.truth(i.compare('Eq', y, x)), tm.ONE, tm.ZERO)
    return VNum(s, 'int')


def listattr(it, o, h, name):
    if h.kind == 'set':
        return setattr_(it, o, h, name)
    if h.kind == 'iter':
        if name == '__next__':
            return VBuiltin(name, lambda i, a, k: i.call(i.builtins['next'], [o], {}))
        return NotImplemented

    def put(i, items):
        i.put(o, HList(items, h.kind))
        i.event('write', obj=o.id)

    def cur(i):
        return list(i.deref(o).items)

    def append(i, a, k):
        put(i, cur(i) + [a[0]])

    def extend(i, a, k):
        put(i, cur(i) + i.iterate(a[0]))

    def insert(i, a, k):
        s = cur(i)
        s.insert(const_int(i.res(a[0])), a[1])
        put(i, s)

    def pop(i, a, k):
        s = cur(i)
        n = const_int(i.res(a[0])) if a else -1
        if n is None:
            raise Unsupported('list.pop at a symbolic index', i.where())
        if not -len(s) <= n < len(s):
            i.raise_('IndexError', 'pop index out of range')
        v = s.pop(n)
        put(i, s)
        return v

    def copy(i, a, k):
        return i.mklist(cur(i))

    def index(i, a, k):
        return _index(i, cur(i), a[0], 'list')

    def remove(i, a, k):
        n = const_int(_index(i, cur(i), a[0], 'list'))
        s = cur(i)
        del s[n]
        put(i, s)

    def clear(i, a, k):
        put(i, [])

    def reverse(i, a, k):
        put(i, cur(i)[::-1])

    def sort(i, a, k):
        r = i.call(i.builtins['sorted'], [o], k)
        put(i, list(i.deref(r).items))

    def count(i, a, k):
        return _count(i, cur(i), a[0])

    def appendleft(i, a, k):
        put(i, [a[0]] + cur(i))

    def popleft(i, a, k):
        s = cur(i)
        if not s:
            i.raise_('IndexError', 'pop from an empty deque')
        put(i, s[1:])
        return s[0]
    fs = dict(append=append, extend=extend, insert=insert, pop=pop, copy=copy, index=index, remove=remove, clear=clear, reverse=reverse, sort=sort,
              count=count, appendleft=appendleft, popleft=popleft)
    if name in fs:
        return VBuiltin('list.' + name, fs[name])
    return NotImplemented


def setattr_(it, o, h, name):
    def cur(i):
        return list(i.deref(o).items)

    def put(i, items):
        i.put(o, HList(items, 'set'))
        i.event('write', obj=o.id)

    def key(i, x):
        return i.hkey(x)

    def add(i, a, k):
        s = cur(i)
        if key(i, a[0]) not in [key(i, x) for x in s]:
            put(i, s + [a[0]])

    def discard(i, a, k):
        kk = key(i, a[0])
        put(i, [x for x in cur(i) if key(i, x) != kk])

    def update(i, a, k):
        for s in a:
            for x in i.iterate(s):
                add(i, [x], {})

    def union(i, a, k):
        items = cur(i)
        for s in a:
            items = items + i.iterate(s)
        return i.mkset(items)

    def sub(keep):
        def f(i, a, k):
            ks = {key(i, x) for s in a for x in i.iterate(s)}
            return i.mkset([x for x in cur(i) if (key(i, x) in ks) == keep])
        return f

    def issubset(i, a, k):
        ks = {key(i, x) for x in i.iterate(a[0])}
        return B(all(key(i, x) in ks for x in cur(i)))

    def issuperset(i, a, k):
        ks = {key(i, x) for x in cur(i)}
        return B(all(key(i, x) in ks for x in i.iterate(a[0])))

    def isdisjoint(i, a, k):
        ks = {key(i, x) for x in cur(i)}
        return B(not any(key(i, x) in ks for x in i.iterate(a[0])))
    fs = dict(add=add, discard=discard, update=update, union=union, difference=sub(False), intersection=sub(True), issubset=issubset,
              issuperset=issuperset, isdisjoint=isdisjoint, copy=lambda i, a, k: i.mkset(cur(i)), remove=discard)
    if name in fs:
        return VBuiltin('set.' + name, fs[name])
    return NotImplemented


def dictattr(it, o, h, name):
    def cur(i):
        return i.deref(o).d

    def put(i, d):
        i.put(o, HDict(d, h.kind))
        i.event('write', obj=o.id)

    def keys(i, a, k):
        return i.mklist([kv for kv, _ in cur(i).values()], 'set')

    def values(i, a, k):
        return i.mklist([v for _, v in cur(i).values()])

    def items(i, a, k):
        return i.mklist([VTuple((kv, v)) for kv, v in cur(i).values()])

    def get(i, a, k):
        if isinstance(i.res(a[0]), VOpaque):
            raise Unsupported('lookup of an unknown key', i.where())
        e = cur(i).get(i.hkey(a[0]))
        if e is None:
            return a[1] if len(a) > 1 else k.get('default')
        return i.res(e[1])

    def pop(i, a, k):
        kk = i.hkey(a[0])
        d = dict(cur(i))
        if kk not in d:
            if len(a) > 1:
                return a[1]
            i.raise_('KeyError', (a[0],))
        v = d.pop(kk)[1]
        put(i, d)
        return i.res(v)

    def setdefault(i, a, k):
        kk = i.hkey(a[0])
        d = dict(cur(i))
        if kk not in d:
            d[kk] = (a[0], a[1] if len(a) > 1 else None)
            put(i, d)
        return i.res(d[kk][1])

    def update(i, a, k):
        d = dict(cur(i))
        if a:
            v = i.res(a[0])
            src = i.deref(v) if isinstance(v, VRef) else None
            if isinstance(src, HDict):
                d.update(src.d)
            else:
                for x in i.iterate(v):
                    kx, vx = i.iterate(x)
                    d[i.hkey(kx)] = (kx, vx)
        for n, v in k.items():
            d[i.hkey(n)] = (n, v)
        put(i, d)

    def copy(i, a, k):
        r = i.new(HDict(dict(cur(i)), h.kind))
        if h.kind == 'defaultdict':
            i.factories[r.id] = i.factories[o.id]
        return r

    def clear(i, a, k):
        put(i, {})

    def popitem(i, a, k):
        d = dict(cur(i))
        if not d:
            i.raise_('KeyError', 'dictionary is empty')
        kk = next(iter(d)) if (k and i.decide(i.truth(k['last'])) is FALSE) else next(reversed(d))
        e = d.pop(kk)
        put(i, d)
        return VTuple(e)
    fs = dict(popitem=popitem, keys=keys, values=values, items=items, get=get, pop=pop, setdefault=setdefault, update=update, copy=copy, clear=clear)
    if name in fs:
        return VBuiltin('dict.' + name, fs[name])
    return NotImplemented
