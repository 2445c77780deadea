"""Loaded program + scenario helpers shared by the property rules."""
from __future__ import annotations

import os
import sys
from fractions import Fraction

from . import terms as tm
from . import npmodel as nm
from .interp import Interp, Ret
from .terms import T, Term, Cond, TRUE, FALSE, c_and, c_or, c_not
from .values import *

sys.setrecursionlimit(30000)
PKG = 'safe_autonomy_dynamics'
_CACHE = {}


class Outcome:
    """result of one abstract call: joined normal state/value plus the raised exits"""

    def __init__(self, w, value, state, raises, events, ok_pc):
        self.w, self.value, self.state, self.raises, self.events = w, value, state, raises, events
        self.ok_pc = ok_pc            # Cond under which the call returns (FALSE: never)

    @property
    def returns(self):
        return self.state is not None

    def raise_cond(self, names=None):
        c = FALSE
        for st, exc, cls in self.raises:
            if names is None or any(k.name in names for k in cls.mro):
                c = c_or(c, st.pc)
        return c


class World:
    """one loaded configuration of the program"""

    def __init__(self, repo, jax=True):
        self.repo = repo
        self.jax = jax
        self.it = Interp(repo, jax)
        self.problems = []
        self.modlist = []
        root = os.path.join(repo, PKG)
        for dp, dn, fn in sorted(os.walk(root)):
            dn[:] = sorted(d for d in dn if not d.startswith(('.', '_')))
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                rel = os.path.relpath(os.path.join(dp, f), repo)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                self.modlist.append(rel)
        for m in sorted(self.modlist, key=lambda x: (x.count('.'), x)):
            self.load(m)
        self.base = self.it.st
        self.base_log = list(self.it.log)
        self.it.log.clear()

    def load(self, m):
        it = self.it
        if m in it.modules:
            return
        mark = it.marks()
        saved = it.st.fork()
        h = it.handlers[0]
        n = len(h.out)
        try:
            it.load(m)
        except PathDead:
            exc = [self.excname(s, e) for s, e in h.out[n:]]
            it.st = saved
            self.problems.append((m, 'raises ' + ', '.join(x[0] + ': ' + x[1] for x in exc)))
            it.rollback(mark)
        except Unsupported as e:
            where = it.where()
            it.st = saved
            it.rollback(mark)
            it.modules.pop(m, None)
            self.problems.append((m, f'unsupported: {e.msg} at {e.where or where}'))
        # a partially failed import leaves its submodules unusable as well
        for k in [k for k, v in it.modules.items() if v.frame not in it.st.heap]:
            it.modules.pop(k)

    def excname(self, st, e):
        it = self.it
        save, it.st = it.st, st
        try:
            c = it.type_of(e)
            o = it.deref(e)
            return c.name, str(o.attrs.get('args', ''))[:120]
        finally:
            it.st = save

    # ------------------------------------------------------------------ scenarios
    def fresh(self):
        """start a new scenario from the loaded program"""
        it = self.it
        it.st = self.base.fork()
        it.log = []
        it.rets, it.loops, it.yields = [], [], []
        it.handlers = [Ret()]
        it.cur = None
        it.curfn = ['<driver>']
        it.depth = 0
        it.curnode = None
        it.hooks = {}
        it.spies = {}
        return it

    def get(self, path):
        """public object by dotted path relative to the package; None when missing"""
        it = self.it
        m, _, n = path.rpartition('.')
        mod = it.modules.get(PKG + ('.' + m if m else ''))
        if mod is None:
            return None
        fr = it.deref(mod.frame)
        if n not in fr.vars:
            return None
        return it.res(fr.vars[n])

    def assume(self, c):
        it = self.it
        it.st = State(it.st.heap, c_and(it.st.pc, c))

    def do(self, thunk):
        """run thunk in the current state; Outcome with raised exits collected"""
        it = self.it
        h = Ret()
        it.handlers.append(h)
        n = len(it.handlers)
        lg = len(it.log)
        s0 = it.st
        val, st = None, None
        try:
            val = it.run(thunk)
            st = it.st
        except PathDead:
            pass
        finally:
            del it.handlers[n - 1:]
        raises = [(s, e, self.cls_in(s, e)) for s, e in h.out]
        if st is not None:
            it.st = st
        else:
            it.st = s0
        return Outcome(self, val, st, raises, it.log[lg:], st.pc if st is not None else FALSE)

    def cls_in(self, st, e):
        it = self.it
        save, it.st = it.st, st
        try:
            return it.type_of(e)
        finally:
            it.st = save

    def call(self, f, *a, **k):
        it = self.it
        a, k = [lift(x) for x in a], {n: lift(x) for n, x in k.items()}
        return self.do(lambda: it.call(f, list(a), k))

    def method(self, o, name, *a, **k):
        it = self.it
        a, k = [lift(x) for x in a], {n: lift(x) for n, x in k.items()}
        return self.do(lambda: it.call(it.getattr(o, name), list(a), k))

    def attr(self, o, name):
        it = self.it
        return self.do(lambda: it.getattr(o, name))

    # ------------------------------------------------------------------ values
    def sym(self, name, *flags):
        return VNum(tm.sym(name, *flags), 'float')

    def num(self, x):
        return VNum(T(x), 'float')

    def vec(self, names, dt='float64', jx=None):
        cells = [tm.sym(n) if isinstance(n, str) else T(n) for n in names]
        return self.it.mkarr(cells, (len(cells),), dt, jx)

    def arr(self, cells, shape=None, dt='float64', jx=None):
        cells = [T(c) for c in cells]
        return self.it.mkarr(cells, (len(cells),) if shape is None else shape, dt, jx)

    def dict(self, **k):
        return self.it.mkdict(list(k.items()))

    def list(self, items):
        return self.it.mklist(items)

    def cells_in(self, st, v):
        """terms of an array / number / sequence of numbers in a state (None when it is not numeric)"""
        it = self.it
        save, it.st = it.st, st
        try:
            return self.cells(v)
        finally:
            it.st = save

    def cells(self, v):
        it = self.it
        v = it.res(v)
        if isinstance(v, VArr):
            return [nm.as_term(c) for c in it.cells(v)]
        if isinstance(v, VNum):
            return [v.t]
        if isinstance(v, VBool):
            return [nm.as_term(v.c)]
        if isinstance(v, VTuple) or (isinstance(v, VRef) and isinstance(it.deref(v), HList)):
            out = []
            for x in it.iterate(v):
                c = self.cells(x)
                if c is None:
                    return None
                out += c
            return out
        return None

    def term(self, v):
        c = self.cells(v)
        return c[0] if c is not None and len(c) == 1 else None


def lift(x):
    """plain Python driver constants as abstract values"""
    if isinstance(x, bool):
        return VBool(TRUE if x else FALSE)
    if isinstance(x, (int, Fraction, Term)):
        return VNum(T(x), 'int' if isinstance(x, int) else 'float')
    return x


def world(repo, jax=True):
    k = (repo, jax)
    if k not in _CACHE:
        _CACHE[k] = World(repo, jax)
    return _CACHE[k]
