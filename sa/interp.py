"""Whole-program abstract interpreter over the Python syntax tree.

Abstract domain: gated algebraic value numbers (terms.py) for numbers, exact shapes and
buffer identities for arrays, a heap of abstract objects, path conditions as BDDs.  Control
flow joins merge states with gating conditions (no path enumeration); calls are inlined
along the resolved call graph.  No statement of the analysed package is ever executed.
"""
from __future__ import annotations

import ast
import builtins
import os

from . import terms as tm
from .terms import T, Term, TRUE, FALSE, c_and, c_or, c_not, c_restrict
from .values import *
from .values import _c3
from . import values as V
from . import attrs

MAX_STMTS = 3_000_000
MAX_LOOP = 3000
MAX_DEPTH = 120
INPLACE = {'Mult': 'mul', 'Div': 'truediv', 'BitOr': 'or', 'BitAnd': 'and', 'BitXor': 'xor'}


class Scope:
    """names bound in a function body"""

    def __init__(self, node):
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()
        self.inner = False
        self.isgen = False
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.locals.add(x.arg)
        if a.vararg:
            self.locals.add(a.vararg.arg)
        if a.kwarg:
            self.locals.add(a.kwarg.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            self.visit(s)
        self.locals -= self.globals
        self.locals -= self.nonlocals

    def visit(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            self.inner = True
            for d in n.decorator_list:
                self.visit(d)
            return
        if isinstance(n, ast.Lambda):
            self.inner = True
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.isgen = True
        if isinstance(n, ast.Global):
            self.globals |= set(n.names)
        elif isinstance(n, ast.Nonlocal):
            self.nonlocals |= set(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                self.locals.add((x.asname or x.name).split('.')[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            self.locals.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            self.locals.add(n.rest)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            self.inner = True
            # targets live in the comprehension; walrus targets and the rest leak
            for ch in ast.walk(n):
                if isinstance(ch, ast.NamedExpr):
                    self.locals.add(ch.target.id)
            for g in n.generators:
                self.visit(g.iter)
            return
        for ch in ast.iter_child_nodes(n):
            self.visit(ch)


_SCOPES = {}


def scope_of(node):
    s = _SCOPES.get(node)
    if s is None:
        s = _SCOPES[node] = Scope(node)
    return s


class Ret:
    """collector of (state, value) outcomes"""
    __slots__ = ('out',)

    def __init__(self):
        self.out = []


class Loop:
    __slots__ = ('brk', 'cont')

    def __init__(self):
        self.brk = []
        self.cont = []


class NativeStmt(ast.stmt):
    """a statement carried out by the analyser"""
    _fields = ()

    def __init__(self, run):
        super().__init__()
        self.run = run


class Interp:
    def __init__(self, repo, jax_present=True):
        from . import models, npmodel, builtinsmodel
        self.repo = repo
        self.jax_present = jax_present
        self.st = State({}, TRUE)
        self.nid = 0
        self.modules = {}
        self.sources = {}
        self.log = []
        self.rets = []            # stack of Ret (function returns)
        self.loops = []           # stack of Loop
        self.handlers = [Ret()]   # stack of raise collectors
        self.yields = []
        self.genret = {}
        self.cur = None           # current frame id
        self.curfn = ['<driver>']
        self.nstmts = 0
        self.depth = 0
        self.factories = {}       # id of a defaultdict -> its factory
        self.hooks = {}           # qualname -> callable(interp, func, args, kwargs) or None
        self.spies = {}
        self.cov_funcs = {}
        self.cov_calls = set()
        self.cov_lines = set()
        self.fresh = 0
        self.decide_memo = {}
        self.curnode = None
        self.builtins = builtinsmodel.make(self)
        self.ext = models.make(self)

    # ------------------------------------------------------------------ heap
    def alloc(self, obj):
        self.nid += 1
        self.st.heap[self.nid] = obj
        return self.nid

    def new(self, obj):
        return VRef(self.alloc(obj))

    def deref(self, r):
        i = r.id if isinstance(r, VRef) else r
        o = self.st.heap.get(i)
        if o is None:
            raise Unsupported(f'dangling object {i}')
        while isinstance(o, HPhi):
            c = self.decide(o.c)
            if c is TRUE:
                o = o.a
            elif c is FALSE:
                o = o.b
            else:
                raise NeedSplit(c)
        return o

    def put(self, r, obj):
        self.st.heap[r.id if isinstance(r, VRef) else r] = obj

    def mklist(self, items, kind='list'):
        return self.new(HList(items, kind))

    def mkdict(self, pairs, kind='dict'):
        d = {}
        for k, v in pairs:
            d[self.hkey(k)] = (k, v)
        return self.new(HDict(d, kind))

    def newbuf(self, cells):
        return self.alloc(HBuf(cells))

    def mkarr(self, cells, shape, dt='float64', jx=None, matrix=False):
        b = self.newbuf(cells)
        return VArr(b, range(len(tuple(cells))), shape, dt, jx, matrix)

    def cells(self, a):
        e = self.deref(a.buf).e
        return [e[i] for i in a.idx]

    def res(self, v):
        """resolve gated values under the path condition"""
        while isinstance(v, VPhi):
            c = self.decide(v.c)
            if c is TRUE:
                v = v.a
            elif c is FALSE:
                v = v.b
            else:
                raise NeedSplit(c)
        return v

    # ------------------------------------------------------------------ conditions and joins
    def decide(self, c):
        if c.v is None:
            return c
        pc = self.st.pc
        c = c_restrict(c, pc)
        if c.v is None:
            return c
        key = (pc.id, c.id)
        r = self.decide_memo.get(key)
        if r is None:
            r = self._decide_facts(c, pc)
            self.decide_memo[key] = r
        return r

    def _decide_facts(self, c, pc):
        lits = []
        x = pc
        while x.v is not None:
            if x.lo is FALSE:
                lits.append((x.v, True))
                x = x.hi
            elif x.hi is FALSE:
                lits.append((x.v, False))
                x = x.lo
            else:
                break
        if not lits or len(lits) > 24:
            return c
        if len(tm.c_vars(c)) > 3:
            return c
        base = tm.Facts()
        for v, val in lits:
            base.add_lit(v, val)
        base.close()

        def feas(f):
            """is f satisfiable with the facts (over its literals)?"""
            def rec(f, facts):
                if f is FALSE:
                    return False
                if f is TRUE:
                    return not facts.copy().close().infeasible()
                for val in (True, False):
                    y = f.hi if val else f.lo
                    if y is FALSE:
                        continue
                    g = facts.copy()
                    g.add_lit(f.v, val)
                    if g.copy().close().infeasible():
                        continue
                    if rec(y, g):
                        return True
                return False
            return rec(f, base)
        if not feas(c):
            return FALSE
        if not feas(c_not(c)):
            return TRUE
        return c

    def marks(self):
        return (len(self.log), [(r, len(r.out)) for r in self.rets], [(h, len(h.out)) for h in self.handlers],
                [(l, len(l.brk), len(l.cont)) for l in self.loops], [(y, len(y)) for y in self.yields], self.cur,
                len(self.rets), len(self.handlers), len(self.loops), len(self.yields), len(self.curfn), self.depth)

    def rollback(self, m):
        del self.log[m[0]:]
        del self.rets[m[6]:]
        del self.handlers[m[7]:]
        del self.loops[m[8]:]
        del self.yields[m[9]:]
        del self.curfn[m[10]:]
        self.depth = m[11]
        for r, n in m[1]:
            del r.out[n:]
        for r, n in m[2]:
            del r.out[n:]
        for l, a, b in m[3]:
            del l.brk[a:]
            del l.cont[b:]
        for y, n in m[4]:
            del y[n:]
        self.cur = m[5]

    def branch(self, c, f, g):
        """evaluate f under c and g under not c, joining states and values"""
        c = self.decide(c)
        if c is TRUE:
            return f()
        if c is FALSE:
            return g()
        s0 = self.st
        cur = self.cur
        outs = []
        for cc, h in ((c, f), (c_not(c), g)):
            pc = c_and(s0.pc, cc)
            if pc is FALSE:
                continue
            self.st = State(dict(s0.heap), pc)
            self.cur = cur
            try:
                v = h()
                outs.append((self.st, v))
            except PathDead:
                pass
        self.cur = cur
        if not outs:
            raise PathDead()
        if len(outs) == 1:
            self.st = outs[0][0]
            return outs[0][1]
        return self.join(outs)

    def join(self, outs):
        s, v = outs[0]
        for s2, v2 in outs[1:]:
            s, v = self.merge(s, v, s2, v2)
        self.st = s
        return v

    def merge(self, s1, v1, s2, v2):
        pc = c_or(s1.pc, s2.pc)
        c = c_restrict(s1.pc, pc)
        if c is TRUE:
            return State(s1.heap, pc), v1
        if c is FALSE:
            return State(s2.heap, pc), v2
        return Merger(self, s1, s2, c, pc).run(v1, v2)

    def run(self, thunk):
        """driver entry: run thunk() with gated-value splitting; (state is joined)"""
        saved = self.st.fork()
        m = self.marks()
        try:
            return thunk()
        except NeedSplit as e:
            self.st = saved
            self.rollback(m)
            return self.branch(e.cond, lambda: self.run(thunk), lambda: self.run(thunk))

    # ------------------------------------------------------------------ exceptions
    def catch(self, thunk, classes):
        """run thunk; (value,) when it ends normally, None when it only raises one of the classes"""
        h = Ret()
        self.handlers.append(h)
        n = len(self.handlers)
        cur = self.cur
        ok = None
        try:
            v = thunk()
            ok = (self.st, v)
        except PathDead:
            pass
        del self.handlers[n - 1:]
        self.cur = cur
        caught = []
        for st, exc in h.out:
            if any(self.type_of_in(st, exc).issub(c) for c in classes):
                caught.append((st, exc))
            else:
                self.handlers[-1].out.append((st, exc))
        if ok is None:
            if not caught:
                raise PathDead()
            self.join([(s, None) for s, _ in caught])
            return None
        if caught:
            raise Unsupported('exception under a data-dependent condition', self.where())
        self.st = ok[0]
        return (ok[1],)

    def type_of_in(self, st, exc):
        save, self.st = self.st, st
        try:
            return self.type_of(exc)
        finally:
            self.st = save

    def catch_unsupported(self, thunk):
        saved = self.st.fork()
        m = self.marks()
        try:
            return thunk()
        except (Unsupported, PathDead):
            self.st = saved
            self.rollback(m)
            return None

    def raise_(self, cls, msg='', node=None):
        """raise a modelled builtin exception"""
        if isinstance(cls, str):
            cls = self.builtins[cls]
        exc = self.new(HInst(cls, {'args': VTuple((msg,) if not isinstance(msg, tuple) else msg)}))
        self.do_raise(exc)

    def do_raise(self, exc):
        self.event('raise', exc=exc)
        self.handlers[-1].out.append((self.st, exc))
        raise PathDead()

    def event(self, kind, **d):
        n = self.curnode
        self.log.append({'kind': kind, 'pc': self.st.pc, 'where': self.where(n), **d})

    def where(self, n=None):
        n = n or self.curnode
        f = self.curfn[-1]
        if n is None or not hasattr(n, 'lineno'):
            return f
        return f'{getattr(n, "_file", "?")}:{n.lineno} ({f})'

    # ------------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(path):
            fn = os.path.join(path, '__init__.py')
        else:
            fn = path + '.py'
        if not os.path.exists(fn):
            if os.path.isdir(path):
                src = ''
            else:
                return None
        else:
            with open(fn, encoding='utf-8') as fh:
                src = fh.read()
        # parents first
        if '.' in name:
            par = name.rsplit('.', 1)[0]
            if par not in self.modules:
                self.load(par)
            if name in self.modules:
                return self.modules[name]
        rel = os.path.relpath(fn, self.repo)
        tree = ast.parse(src, rel)
        for n in ast.walk(tree):
            n._file = rel
        self.sources[rel] = src
        fid = self.alloc(HFrame({'__name__': name}, None, None, 'module', name))
        mod = VModule(name, fid, rel)
        fr = self.st.heap[fid]
        fr.module = mod
        mod_future = any(isinstance(s, ast.ImportFrom) and s.module == '__future__' and any(a.name == 'annotations' for a in s.names)
                         for s in tree.body)
        self.futures = getattr(self, 'futures', {})
        self.futures[name] = mod_future
        self.modules[name] = mod
        save = (self.cur, self.curnode)
        self.cur = fid
        self.curfn.append(f'<module {name}>')
        try:
            self.exec_block(tree.body)
        except PathDead:
            self.modules.pop(name, None)
            raise
        finally:
            self.curfn.pop()
            self.cur, self.curnode = save
        if '.' in name:
            par, leaf = name.rsplit('.', 1)
            pm = self.modules.get(par)
            if pm is not None:
                self.setvar_in(pm.frame, leaf, mod)
        return mod

    def import_module(self, name):
        top = name.split('.')[0]
        if os.path.isdir(os.path.join(self.repo, top)) or os.path.exists(os.path.join(self.repo, top + '.py')):
            m = self.load(name)
            if m is not None:
                return m
            return None
        return self.ext.module(name)

    # ------------------------------------------------------------------ variables
    def frame(self, fid=None):
        return self.deref(self.cur if fid is None else fid)

    def setvar_in(self, fid, name, v):
        fr = self.deref(fid)
        d = dict(fr.vars)
        d[name] = v
        self.st.heap[fid] = fr.with_vars(d)

    def lookup(self, name):
        fid = self.cur
        first = True
        while fid is not None:
            fr = self.deref(fid)
            if fr.kind == 'func':
                sc = fr.owner.scope
                if name in sc.locals or name in fr.vars:
                    if name in fr.vars:
                        v = self.res(fr.vars[name])
                        if v is not UNDEF:
                            return v
                    if first:
                        self.raise_('UnboundLocalError', f"local variable '{name}' referenced before assignment")
                    self.raise_('NameError', f"free variable '{name}' referenced before assignment")
                if name in sc.globals:
                    fid = fr.module.frame
                    first = False
                    continue
                fid = fr.parent
                first = False
                continue
            if fr.kind == 'class' and not first:
                fid = fr.parent
                continue
            if name in fr.vars:
                v = self.res(fr.vars[name])
                if v is not UNDEF:
                    return v
            if fr.kind == 'comp':
                fid = fr.parent
                # a comprehension directly in a function sees the function's locals as its own
                continue
            first = False
            fid = fr.parent
        if name in self.builtins:
            return self.builtins[name]
        if hasattr(builtins, name):
            return self.ext.mods.unknown(f'builtins.{name}')
        self.raise_('NameError', f"name '{name}' is not defined")

    def store_name(self, name, v):
        fid = self.cur
        fr = self.deref(fid)
        if fr.kind == 'func':
            sc = fr.owner.scope
            if name in sc.globals:
                return self.setvar_in(fr.module.frame, name, v)
            if name in sc.nonlocals:
                p = fr.parent
                while p is not None:
                    pf = self.deref(p)
                    if pf.kind == 'func' and name in pf.vars:
                        return self.setvar_in(p, name, v)
                    p = pf.parent
                raise Unsupported('nonlocal without binding')
        self.setvar_in(fid, name, v)

    # ------------------------------------------------------------------ statements
    def exec_block(self, body):
        for s in body:
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.nstmts += 1
        if self.nstmts > MAX_STMTS:
            raise Unsupported('statement budget exceeded')
        self.curnode = s
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}', self.where(s))
        saved = self.st.fork()
        marks = self.marks()
        try:
            m(s)
        except NeedSplit as e:
            self.st = saved
            self.rollback(marks)
            self.branch(e.cond, lambda: self.exec_stmt(s), lambda: self.exec_stmt(s))

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            m = self.import_module(a.name)
            if m is None:
                self.raise_('ModuleNotFoundError', f"No module named '{a.name}'")
            if a.asname:
                self.store_name(a.asname, m)
            else:
                top = a.name.split('.')[0]
                tmod = self.import_module(top)
                self.store_name(top, tmod)

    def s_ImportFrom(self, s):
        if s.module == '__future__':
            return
        mod = s.module or ''
        if s.level:
            cur = self.frame().module or self.frame(self.cur).module
            base = cur.name
            isp = cur.path.endswith('__init__.py')
            parts = base.split('.')
            drop = s.level - (1 if isp else 0)
            parts = parts[:len(parts) - drop]
            mod = '.'.join(parts + ([mod] if mod else []))
        m = self.import_module(mod)
        if m is None:
            self.raise_('ModuleNotFoundError', f"No module named '{mod}'")
        for a in s.names:
            if a.name == '*':
                if isinstance(m, VModule):
                    for k, v in self.deref(m.frame).vars.items():
                        if not k.startswith('_'):
                            self.store_name(k, v)
                    continue
                raise Unsupported('star import from library', self.where(s))
            v = self.module_attr(m, a.name)
            if v is None:
                self.raise_('ImportError', f"cannot import name '{a.name}' from '{mod}'")
            self.store_name(a.asname or a.name, None if v is NONE else v)

    def module_attr(self, m, name):
        if isinstance(m, VModule):
            fr = self.deref(m.frame)
            if name in fr.vars:
                return self.res(fr.vars[name])
            sub = self.load(m.name + '.' + name) if m.path.endswith('__init__.py') else None
            return sub
        return m.get(name)

    def s_FunctionDef(self, s):
        f = self.make_func(s, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dec = self.ev(d)
            self.curnode = s
            v = self.call(dec, [v], {})
        self.store_name(s.name, v)

    def make_func(self, s, name):
        a = s.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = {x.arg: self.ev(d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        fr = self.frame()
        mod = fr.module
        if isinstance(s, ast.FunctionDef) and not self.futures.get(mod.name):
            for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
                if x.annotation is not None:
                    self.ev(x.annotation)
            if s.returns is not None:
                self.ev(s.returns)
        qn = mod.name + '.' + name
        if fr.kind == 'class':
            qn = fr.owner + '.' + name
        elif fr.kind == 'func':
            qn = fr.owner.qualname + '.<locals>.' + name
        sc = scope_of(s)
        f = VFunc(s, mod, self.cur, defaults, kwd, name, qn, sc)
        f.isgen = sc.isgen
        return f

    def s_ClassDef(self, s):
        bases = [self.res(self.ev(b)) for b in s.bases]
        kws = {k.arg: self.ev(k.value) for k in s.keywords}
        fr = self.frame()
        mod = fr.module
        qn = mod.name + '.' + s.name
        bases = [self.ext.as_class(b) for b in bases]
        if 'metaclass' in kws and getattr(kws['metaclass'], 'name', '') == 'ABCMeta' and not any(b.name == 'ABC' for b in bases):
            bases = bases + [self.ext.ABC]
        bases = [b for b in bases if b is not None]
        fid = self.alloc(HFrame({'__module__': mod.name, '__qualname__': s.name}, self.cur, mod, 'class', qn))
        save = self.cur
        self.cur = fid
        ann = []
        try:
            for st in s.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    ann.append(st)
                self.exec_stmt(st)
        finally:
            self.cur = save
        if not bases:
            bases = [self.builtins['object']]
        mc = kws.pop('metaclass', None)
        if mc is not None and getattr(mc, 'name', '') not in ('ABCMeta', 'type', 'EnumMeta', 'EnumType'):
            raise Unsupported('metaclass', self.where(s))
        cls = v = self.finish_class(s.name, bases, fid, mod, s, qn, ann, kws)
        for d_ in reversed(s.decorator_list):
            v = self.call(self.ev(d_), [v], {})
        self.store_name(s.name, v)

    def finish_class(self, name, bases, fid, mod, node, qn, ann, kws):
        cls = VClass(name, bases, ns=fid, module=mod, node=node, qualname=qn)
        cls.meta['ann'] = ann
        # __class__ cell, __set_name__
        for k, v in dict(self.deref(fid).vars).items():
            self.set_defclass(v, cls)
            v = self.res(v)
            if isinstance(v, VRef) and isinstance(self.deref(v), HInst):
                m = self.find_special(v, '__set_name__')
                if m is not None:
                    self.call(m, [v, cls, k], {})
        self.ext.class_created(cls, kws)
        return cls

    def make_class(self, name, bases, d):
        """type(name, bases, namespace)"""
        mod = self.frame().module or self.frame(self.cur).module
        bases = [self.ext.as_class(b) for b in bases] or [self.builtins['object']]
        qn = f'{mod.name}.{name}' if mod is not None else name
        fid = self.alloc(HFrame({'__module__': mod.name if mod is not None else '', '__qualname__': name, **d}, self.cur, mod, 'class', qn))
        return self.finish_class(name, bases, fid, mod, self.curnode, qn, [], {})

    def set_defclass(self, v, cls):
        if isinstance(v, VFunc):
            if v.cls is None:
                v.cls = cls
            w = v.attrs.get('__wrapped__')
            if w is not None:
                self.set_defclass(w, cls)
        elif isinstance(v, VProperty):
            for f in (v.fget, v.fset, v.fdel):
                if f is not None:
                    self.set_defclass(f, cls)
        elif isinstance(v, (VStatic, VClassMethod)):
            self.set_defclass(v.func, cls)
        elif isinstance(v, VBuiltin) and '__wrapped__' in v.attrs:
            self.set_defclass(v.attrs['__wrapped__'], cls)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        self.rets[-1].out.append((self.st, v))
        raise PathDead()

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.ev(s.value)
            self.store_name(t.id, self.inplace(op, cur, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr)
            v = self.ev(s.value)
            self.setattr(o, t.attr, self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            cur = self.getitem(o, k)
            v = self.ev(s.value)
            self.setitem(o, k, self.inplace(op, cur, v))
        else:
            raise Unsupported('augmented assignment target')

    def inplace(self, op, cur, v):
        cur, v = self.res(cur), self.res(v)
        from . import npmodel
        if isinstance(cur, VArr) and cur.jx is None:
            r = self.binop(op, cur, v)
            if isinstance(r, VArr):
                if r.shape != cur.shape:
                    self.raise_('ValueError', 'non-broadcastable output operand')
                if cur.dt in ('int64', 'bool') and r.dt not in ('int64', 'bool'):
                    self.raise_(self.ext.UFuncTypeError, 'cannot cast ufunc output from float64 to int64')
                npmodel.store(self, cur, r)
                return cur
        if isinstance(cur, VRef) and op == 'Add':
            o = self.deref(cur)
            if isinstance(o, HList) and o.kind == 'list':
                self.put(cur, HList(o.items + tuple(self.iterate(v)), o.kind))
                self.event('write', obj=cur.id)
                return cur
            if isinstance(o, HInst):
                m = self.find_special(cur, '__iadd__')
                if m is not None:
                    return self.call(m, [cur, v], {})
        elif isinstance(cur, VRef):
            o = self.deref(cur)
            if isinstance(o, HInst):
                m = self.find_special(cur, '__i' + INPLACE.get(op, op.lower()) + '__')
                if m is not None:
                    return self.call(m, [cur, v], {})
            r = self.binop(op, cur, v)
            if isinstance(o, (HList, HDict)) and isinstance(r, VRef) and op in ('Mult', 'BitOr', 'BitAnd', 'BitXor', 'Sub'):
                n = self.deref(r)
                self.put(cur, HList(n.items, o.kind) if isinstance(o, HList) else HDict(n.d, o.kind))
                self.event('write', obj=cur.id)
                return cur
            return r
        return self.binop(op, cur, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iterate(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_('ValueError', 'not enough values to unpack')
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x)
                self.assign(t.elts[i].value, self.mklist(items[i:len(items) - after]))
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:] if after else []):
                    self.assign(e, x)
                return
            if len(items) != len(t.elts):
                self.raise_('ValueError', f'cannot unpack {len(items)} values into {len(t.elts)} targets')
            for e, x in zip(t.elts, items):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.setitem(o, self.ev_index(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, self.mklist(self.iterate(v)))
        else:
            raise Unsupported('assignment target')

    def s_If(self, s):
        c = self.truth(self.ev(s.test))
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test))

        def bad():
            msg = self.ev(s.msg) if s.msg is not None else ''
            self.raise_('AssertionError', msg)
        self.branch(c, lambda: None, bad)

    def s_Raise(self, s):
        if s.exc is None:
            h = getattr(self, 'active_exc', [])
            if not h:
                raise Unsupported('bare raise outside handler')
            self.do_raise(h[-1])
        e = self.res(self.ev(s.exc))
        if s.cause is not None:
            self.ev(s.cause)
        self.curnode = s
        if isinstance(e, VClass):
            e = self.call(e, [], {})
        self.do_raise(e)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.store_name(t.id, UNDEF)
            elif isinstance(t, ast.Subscript):
                o = self.res(self.ev(t.value))
                k = self.ev_index(t.slice)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.res(self.ev(t.value))
                ob = self.deref(o)
                cv, owner = self.class_lookup(ob.cls, t.attr) if isinstance(ob, HInst) else (None, None)
                if not isinstance(ob, HInst):
                    raise Unsupported('del of an attribute', self.where(s))
                if isinstance(cv, VProperty) and cv.cached is None:
                    if cv.fdel is None:
                        self.raise_('AttributeError', f"property '{t.attr}' has no deleter")
                    self.call(cv.fdel, [o], {})
                    continue
                if owner is not None and self.descr(cv, '__delete__') is not None:
                    self.call(self.descr(cv, '__delete__'), [cv, o], {})
                    continue
                if t.attr not in ob.attrs:
                    self.raise_('AttributeError', t.attr)
                d = dict(ob.attrs)
                d.pop(t.attr, None)
                self.put(o, HInst(ob.cls, d))
                self.event('attrwrite', obj=o.id, name=t.attr)
            else:
                raise Unsupported('del target')

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Break(self, s):
        self.loops[-1].brk.append((self.st, None))
        raise PathDead()

    def s_Continue(self, s):
        self.loops[-1].cont.append((self.st, None))
        raise PathDead()

    def loop_body(self, body, lp):
        """one iteration: body, then join with `continue` states; PathDead when no path goes on"""
        lp.cont = []
        outs = []
        try:
            self.exec_block(body)
            outs.append((self.st, None))
        except PathDead:
            pass
        outs += lp.cont
        if not outs:
            raise PathDead()
        self.join(outs)

    def s_For(self, s):
        items = self.iterate(self.ev(s.iter))
        lp = Loop()
        self.loops.append(lp)
        cur = self.cur
        alive = True
        try:
            for x in items:
                try:
                    self.assign(s.target, x)
                    self.loop_body(s.body, lp)
                except PathDead:
                    alive = False
                    break
                self.cur = cur
        finally:
            self.loops.pop()
        self.cur = cur
        outs = list(lp.brk)
        if alive:
            try:
                self.exec_block(s.orelse)
                outs.append((self.st, None))
            except PathDead:
                pass
        if not outs:
            raise PathDead()
        self.join(outs)

    def s_While(self, s):
        lp = Loop()
        self.loops.append(lp)
        exits = []
        cur = self.cur
        n = 0
        try:
            while True:
                n += 1
                if n > MAX_LOOP:
                    raise Unsupported('loop bound exceeded', self.where(s))
                try:
                    c = self.decide(self.truth(self.ev(s.test)))
                except PathDead:
                    break
                if c is FALSE:
                    exits.append((self.st, None))
                    break
                if c is not TRUE:
                    if n > 60:
                        raise Unsupported('loop with a symbolic bound', self.where(s))
                    exits.append((State(dict(self.st.heap), c_and(self.st.pc, c_not(c))), None))
                    self.st = State(self.st.heap, c_and(self.st.pc, c))
                try:
                    self.loop_body(s.body, lp)
                except PathDead:
                    break
                self.cur = cur
        finally:
            self.loops.pop()
        self.cur = cur
        outs = list(lp.brk)
        if exits:
            self.join(exits)
            try:
                self.exec_block(s.orelse)
                outs.append((self.st, None))
            except PathDead:
                pass
        if not outs:
            raise PathDead()
        self.join(outs)

    def s_With(self, s):
        self.with_cur = getattr(self, 'with_cur', [])
        n = len(self.with_cur)
        try:
            self.with_(s)
        finally:
            del self.with_cur[n:]

    def with_(self, s):
        entered = []
        for it in s.items:
            self.with_cur.append(it)
            m = self.res(self.ev(it.context_expr))
            if isinstance(m, VNative) and m.kind == 'nullctx':
                v = m.d.get('value')
            elif isinstance(m, VNative) and m.kind == 'suppress':
                return self.with_managed(s, m, None)
            elif isinstance(m, VRef) and self.has_method(m, '__enter__'):
                v = self.call(self.getattr(m, '__enter__'), [], {})
                if self.type_of(m) is not self.ext.nullcls:
                    return self.with_managed(s, m, v)
                entered.append(m)
            else:
                raise Unsupported('with-statement context manager', self.where(s))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.exec_block(s.body)
        for m in reversed(entered):
            self.call(self.getattr(m, '__exit__'), [None, None, None], {})

    def with_managed(self, s, m, v):
        """with-statement over a manager whose exit matters: rewritten to try / except / finally"""
        k = s.items.index(next(i for i in s.items if i is self.with_item(s)))
        it = s.items[k]
        rest = s.items[k + 1:]
        body = [ast.copy_location(ast.With(rest, s.body), s)] if rest else s.body
        self.nwith = getattr(self, 'nwith', 0) + 1
        flag = f'$with{self.nwith}'

        def bind():
            self.store_name(flag, None)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)

        def caught():
            exc = self.active_exc[-1]
            if m.__class__ is VNative:
                if not any(self.type_of(exc).issub(self.res(c)) for c in m.d['classes']):
                    self.reraise(exc)
                return
            self.store_name(flag, VNum(T(1), 'int'))
            r = self.call(self.getattr(m, '__exit__'), [self.type_of(exc), exc, None], {})
            self.branch(self.truth(r), lambda: None, lambda: self.reraise(exc))

        def leave():
            if m.__class__ is not VNative and self.lookup(flag) is None:
                self.call(self.getattr(m, '__exit__'), [None, None, None], {})
        loc = lambda n: ast.copy_location(n, s)
        inner = loc(ast.Try([loc(NativeStmt(bind))] + body, [loc(ast.ExceptHandler(None, None, [loc(NativeStmt(caught))]))], [], []))
        self.exec_stmt(loc(ast.Try([inner], [], [], [loc(NativeStmt(leave))])))

    def with_item(self, s):
        return self.with_cur[-1]

    def reraise(self, exc):
        self.handlers[-1].out.append((self.st, exc))
        raise PathDead()

    def s_NativeStmt(self, s):
        s.run()

    def attempt(self, f, cls, alt):
        """value of f(), or alt where it raises an exception of the class"""
        h = Ret()
        nh = len(self.handlers)
        cur, fnd = self.cur, len(self.curfn)
        self.handlers.append(h)
        normal = []
        try:
            try:
                v = f()
                normal.append((self.st, v))
            except PathDead:
                pass
        finally:
            del self.handlers[nh:]
            del self.curfn[fnd:]
        self.cur = cur
        for st, exc in h.out:
            self.st = st
            if self.type_of(exc).issub(cls):
                normal.append((st, alt))
            else:
                self.handlers[-1].out.append((st, exc))
        if not normal:
            raise PathDead()
        return self.join(normal)

    def s_Try(self, s):
        cur = self.cur
        fin = bool(s.finalbody)
        rcap = None
        lcap = None
        if fin:
            rcap = Ret()
            real_rets = self.rets
            self.rets = self.rets + [rcap]
            if self.loops:
                lcap = Loop()
                self.loops = self.loops + [lcap]
            outer_raise = Ret()
            self.handlers.append(outer_raise)
        h = Ret()
        self.handlers.append(h)
        normal = []
        nh = len(self.handlers)
        fnd = len(self.curfn)
        try:
            try:
                self.exec_block(s.body)
                normal.append((self.st, None))
            except PathDead:
                pass
            del self.handlers[nh - 1:]
            self.cur = cur
            if normal and s.orelse:
                self.st = normal.pop()[0]
                try:
                    self.exec_block(s.orelse)
                    normal.append((self.st, None))
                except PathDead:
                    pass
                self.cur = cur
            for st, exc in h.out:
                self.st = st
                self.cur = cur
                try:
                    handled = self.try_handlers(s.handlers, exc)
                    normal.append((self.st, None))
                except PathDead:
                    pass
        finally:
            if fin:
                self.rets = real_rets
                if lcap is not None:
                    self.loops = self.loops[:-1]
                del self.handlers[nh - 2:]
            else:
                del self.handlers[nh - 1:]
        self.cur = cur
        if fin:
            if normal:
                self.join(normal)
                normal = []
                try:
                    self.exec_block(s.finalbody)
                    normal.append((self.st, None))
                except PathDead:
                    pass

            def forward(outs, sink):
                for st, v in outs:
                    self.st = st
                    self.cur = cur
                    try:
                        self.exec_block(s.finalbody)
                        sink.append((self.st, v))
                    except PathDead:
                        pass
            forward(rcap.out, self.rets[-1].out if self.rets else [])
            if lcap is not None:
                forward(lcap.brk, self.loops[-1].brk)
                forward(lcap.cont, self.loops[-1].cont)
            forward(outer_raise.out, self.handlers[-1].out)
            self.cur = cur
        if not normal:
            raise PathDead()
        self.join(normal)

    def try_handlers(self, handlers, exc):
        ecls = self.type_of(exc)
        for h in handlers:
            if h.type is None:
                ok = True
            else:
                t = self.res(self.ev(h.type))
                ts = self.iterate(t) if isinstance(t, VTuple) else [t]
                ok = any(isinstance(self.res(x), VClass) and ecls.issub(self.res(x)) for x in ts)
            if ok:
                if h.name:
                    self.store_name(h.name, exc)
                self.active_exc = getattr(self, 'active_exc', []) + [exc]
                try:
                    self.exec_block(h.body)
                finally:
                    self.active_exc = self.active_exc[:-1]
                return True
        self.handlers[-1].out.append((self.st, exc))
        raise PathDead()

    def s_Match(self, s):
        subj = self.ev(s.subject)

        def go(cases):
            if not cases:
                return
            case = cases[0]
            c = self.match(case.pattern, subj)

            def yes():
                if case.guard is not None:
                    g = self.truth(self.ev(case.guard))
                    self.branch(g, lambda: self.exec_block(case.body), lambda: go(cases[1:]))
                else:
                    self.exec_block(case.body)
            self.branch(c, yes, lambda: go(cases[1:]))
        go(s.cases)

    def match(self, p, v):
        v = self.res(v)
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('Eq', v, self.ev(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare('Is', v, self.const(p.value)))
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else self.match(p.pattern, v)
            if p.name and c is not FALSE:
                self.store_name(p.name, v)
            return c
        if isinstance(p, ast.MatchOr):
            c = FALSE
            for q in p.patterns:
                c = c_or(c, self.match(q, v))
            return c
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(self.isinstance(v, self.ev(p.cls)))
        if isinstance(p, ast.MatchClass):
            cls = self.res(self.ev(p.cls))
            c = self.truth(self.isinstance(v, cls))
            if c is FALSE:
                return c
            if c is not TRUE:
                raise Unsupported('match pattern', self.where(p))
            if p.patterns and cls.native in ('int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set'):
                return self.match(p.patterns[0], v)
            names = [self.res(x) for x in self.iterate(self.getattr(cls, '__match_args__'))] if p.patterns else []
            if len(names) < len(p.patterns):
                self.raise_('TypeError', f'{cls.name}() accepts {len(names)} positional sub-patterns')
            for n, q in list(zip(names, p.patterns)) + list(zip(p.kwd_attrs, p.kwd_patterns)):
                a = self.attempt(lambda: self.getattr(v, n), self.builtins['AttributeError'], UNDEF)
                if a is UNDEF:
                    return FALSE
                c = c_and(c, self.match(q, a))
                if c is FALSE:
                    return c
            return c
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, VTuple):
                items = list(v.items)
            elif isinstance(v, VRef) and isinstance(self.deref(v), HList) and self.deref(v).kind == 'list':
                items = list(self.iterate(v))
            elif isinstance(v, VOpaque) or isinstance(v, VRef) and isinstance(self.deref(v), HInst):
                raise Unsupported('match pattern', self.where(p))
            else:
                return FALSE
            st = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if (len(items) != n) if not st else (len(items) < n - 1):
                return FALSE
            if st:
                i = st[0]
                m = len(items) - (n - 1)
                if p.patterns[i].name:
                    self.store_name(p.patterns[i].name, self.mklist(items[i:i + m]))
                pairs = list(zip(p.patterns[:i], items[:i])) + list(zip(p.patterns[i + 1:], items[i + m:]))
            else:
                pairs = list(zip(p.patterns, items))
            c = TRUE
            for q, x in pairs:
                c = c_and(c, self.match(q, x))
                if c is FALSE:
                    return c
            return c
        if isinstance(p, ast.MatchMapping) and isinstance(v, VRef) and isinstance(self.deref(v), HDict):
            c = TRUE
            for k, q in zip(p.keys, p.patterns):
                e = self.deref(v).d.get(self.hkey(self.ev(k)))
                if e is None:
                    return FALSE
                c = c_and(c, self.match(q, e[1]))
                if c is FALSE:
                    return c
            if p.rest is not None:
                used = [self.hkey(self.ev(k)) for k in p.keys]
                self.store_name(p.rest, self.new(HDict({k: e for k, e in self.deref(v).d.items() if k not in used})))
            return c
        raise Unsupported('match pattern', self.where(p))

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}', self.where(e))
        return m(e)

    def const(self, v):
        if v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return v
        if isinstance(v, (bool, int, float)):
            return pynum(v)
        raise Unsupported(f'constant {v!r}')

    def e_Constant(self, e):
        return self.const(e.value)

    def e_Name(self, e):
        self.cov_lines.add((e._file, e.lineno))
        return self.lookup(e.id)

    def e_Tuple(self, e):
        return VTuple(self.ev_list(e.elts))

    def e_List(self, e):
        return self.mklist(self.ev_list(e.elts))

    def e_Set(self, e):
        items = self.ev_list(e.elts)
        return self.mkset(items)

    def mkset(self, items):
        seen, out = set(), []
        for x in items:
            k = self.hkey(x)
            if k not in seen:
                seen.add(k)
                out.append(x)
        return self.mklist(out, 'set')

    def ev_list(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value)))
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.deref(self.res(self.ev(v)))
                if not isinstance(o, HDict):
                    raise Unsupported('dict unpacking')
                d.update(o.d)
            else:
                kv = self.ev(k)
                d[self.hkey(kv)] = (kv, self.ev(v))
        return self.new(HDict(d))

    def e_Attribute(self, e):
        o = self.ev(e.value)
        self.curnode = e
        self.cov_lines.add((e._file, e.lineno))
        return self.getattr(o, e.attr)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        k = self.ev_index(e.slice)
        self.curnode = e
        return self.getitem(o, k)

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return VSlice(*(self.ev(x) if x is not None else None for x in (s.lower, s.upper, s.step)))
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.iterate(self.ev(x.value)))
                else:
                    out.append(self.ev_index(x))
            return VTuple(out)
        return self.ev(s)

    def e_Slice(self, e):
        return self.ev_index(e)

    def e_UnaryOp(self, e):
        v = self.res(self.ev(e.operand))
        op = type(e.op).__name__
        self.curnode = e
        if op == 'Not':
            return VBool(c_not(self.truth(v)))
        return self.unop(op, v)

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        self.curnode = e
        return self.binop(type(e.op).__name__, a, b)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(vals):
            v = self.ev(vals[0])
            if len(vals) == 1:
                return v
            c = self.decide(self.truth(v))
            if isand:
                return self.boolbranch(c, lambda: go(vals[1:]), lambda: v, v)
            return self.boolbranch(c, lambda: v, lambda: go(vals[1:]), v)
        return go(e.values)

    def boolbranch(self, c, f, g, v):
        return self.branch(c, f, g)

    def e_Compare(self, e):
        left = self.ev(e.left)
        ops = [type(o).__name__ for o in e.ops]

        def go(l, i):
            r = self.ev(e.comparators[i])
            self.curnode = e
            v = self.compare(ops[i], l, r)
            if i + 1 == len(ops):
                return v
            c = self.decide(self.truth(v))
            return self.branch(c, lambda: go(r, i + 1), lambda: v)
        return go(left, 0)

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.branch(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        # walrus inside a comprehension binds in the enclosing function
        fid = self.cur
        while self.deref(fid).kind == 'comp':
            fid = self.deref(fid).parent
        save = self.cur
        self.cur = fid
        self.store_name(e.target.id, v)
        self.cur = save
        return v

    def e_Lambda(self, e):
        return self.make_func(e, '<lambda>')

    def e_Starred(self, e):
        raise Unsupported('starred expression')

    def e_JoinedStr(self, e):
        out = []
        for v in e.values:
            x = self.ev(v)
            if isinstance(x, str):
                out.append(x)
            elif isinstance(x, VOpaque) and x.parts and out is not None:
                out += x.parts
            else:
                out = None
            if out is None:
                break
        if out is None:
            for v in e.values[e.values.index(v) + 1:]:
                self.ev(v)
            return VOpaque('str')
        return ''.join(out) if all(isinstance(x, str) for x in out) else VOpaque('str', parts=out)

    def e_FormattedValue(self, e):
        v = self.res(self.ev(e.value))
        spec = '' if e.format_spec is None else self.ev(e.format_spec)
        c = const_int(v) if isinstance(v, VNum) else None
        if isinstance(spec, str) and (isinstance(v, str) or c is not None):
            if isinstance(v, str) and e.conversion == 114:
                v = repr(v)
            try:
                return format(v if isinstance(v, str) else c if v.k == 'int' else float(c), spec)
            except ValueError as x:
                self.raise_('ValueError', str(x))
        if isinstance(spec, str) and isinstance(v, VNum) and e.conversion == -1:
            return VOpaque('str', parts=[(v, spec)])
        if isinstance(v, VClass) and e.format_spec is None:
            return f"<class '{v.name}'>"
        return VOpaque('str')

    def comp(self, gens, emit):
        save = self.cur
        fr = self.frame()
        first_iter = self.ev(gens[0].iter)
        fid = self.alloc(HFrame({}, self.cur, fr.module, 'comp'))
        self.cur = fid

        def go(i):
            g = gens[i]
            items = self.iterate(first_iter if i == 0 else self.ev(g.iter))
            for x in items:
                self.assign(g.target, x)
                conds = list(g.ifs)

                def inner(conds):
                    if conds:
                        c = self.decide(self.truth(self.ev(conds[0])))
                        if c is FALSE:
                            return
                        if c is not TRUE:
                            raise NeedSplit(c)
                        inner(conds[1:])
                        return
                    if i + 1 < len(gens):
                        go(i + 1)
                    else:
                        emit()
                inner(conds)
        try:
            go(0)
        finally:
            self.cur = save
            self.st.heap.pop(fid, None) if not self._captures(gens) else None

    def _captures(self, gens):
        return True

    def e_ListComp(self, e):
        out = []
        self.comp(e.generators, lambda: out.append(self.ev(e.elt)))
        return self.mklist(out)

    def e_GeneratorExp(self, e):
        out = []
        self.comp(e.generators, lambda: out.append(self.ev(e.elt)))
        return self.mklist(out, 'iter')

    def e_SetComp(self, e):
        out = []
        self.comp(e.generators, lambda: out.append(self.ev(e.elt)))
        return self.mkset(out)

    def e_DictComp(self, e):
        out = []
        self.comp(e.generators, lambda: out.append((self.ev(e.key), self.ev(e.value))))
        return self.mkdict(out)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else None
        y = self.yields[-1]
        if y.pc is not self.st.pc:
            raise Unsupported('generator with path-dependent yields', self.where(e))
        y.append(v)
        return None

    def e_YieldFrom(self, e):
        y = self.yields[-1]
        g = self.res(self.ev(e.value))
        for v in self.iterate(g):
            if y.pc is not self.st.pc:
                raise Unsupported('generator with path-dependent yields', self.where(e))
            y.append(v)
        return self.genret.get(g.id) if isinstance(g, VRef) else None

    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            fid = self.cur
            while self.deref(fid).kind == 'comp' or (self.deref(fid).kind == 'func' and self.deref(fid).owner.cls is None):
                fid = self.deref(fid).parent
                if fid is None:
                    raise Unsupported('super() outside a method')
            fr = self.deref(fid)
            node = fr.owner.node
            first = (node.args.posonlyargs + node.args.args)[0].arg
            return VSuper(fr.owner.cls, self.res(fr.vars[first]))
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value)))
            else:
                args.append(self.ev(a))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                m = self.res(self.ev(k.value))
                o = self.deref(m) if isinstance(m, VRef) else None
                if not isinstance(o, HDict):
                    raise Unsupported('** of a non-dict', self.where(e))
                for kk, (kv, vv) in o.d.items():
                    if kv in kwargs:
                        self.raise_('TypeError', f"got multiple values for keyword argument '{kv}'")
                    kwargs[kv] = vv
            else:
                if k.arg in kwargs:
                    self.raise_('TypeError', f"got multiple values for keyword argument '{k.arg}'")
                kwargs[k.arg] = self.ev(k.value)
        self.curnode = e
        self.cov_calls.add((e._file, e.lineno, e.col_offset))
        return self.call(f, args, kwargs)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = self.res(f)
        if isinstance(f, VFunc):
            return self.call_func(f, args, kwargs)
        if isinstance(f, VBound):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, VBuiltin):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, VClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, VPartial):
            return self.call(f.func, list(f.args) + list(args), {**f.kwargs, **kwargs})
        if isinstance(f, (VStatic,)):
            return self.call(f.func, args, kwargs)
        if isinstance(f, VRef):
            m = self.find_special(f, '__call__')
            if m is not None:
                return self.call(m, [f] + list(args), kwargs)
        if isinstance(f, VNative):
            r = self.ext.call_native(f, args, kwargs)
            if r is not NotImplemented:
                return r
        if isinstance(f, VNative) and f.kind == 'ureg':
            return self.mods.pint.expr(args[0], f.d.get('reg'))
        self.raise_('TypeError', f'{self.type_of(f).name!r} object is not callable')

    def bind(self, f, args, kwargs):
        a = f.node.args
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos]
        vars = {}
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_('TypeError', f'{f.name}() takes {len(names)} positional arguments but {len(args)} were given')
            vars[a.vararg.arg] = VTuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            vars[a.vararg.arg] = VTuple(())
        for n, v in zip(names, args):
            vars[n] = v
        nd = len(f.defaults)
        ponly = {x.arg for x in a.posonlyargs}
        for i, n in enumerate(names):
            if n in kwargs and n not in ponly:
                if n in vars:
                    self.raise_('TypeError', f"{f.name}() got multiple values for argument '{n}'")
                vars[n] = kwargs.pop(n)
            elif n not in vars:
                j = i - (len(names) - nd)
                if j >= 0:
                    vars[n] = f.defaults[j]
                else:
                    self.raise_('TypeError', f"{f.name}() missing required positional argument: '{n}'")
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                vars[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                vars[x.arg] = f.kwdefaults[x.arg]
            else:
                self.raise_('TypeError', f"{f.name}() missing keyword-only argument: '{x.arg}'")
        if a.kwarg is not None:
            vars[a.kwarg.arg] = self.mkdict(list(kwargs.items()))
        elif kwargs:
            self.raise_('TypeError', f"{f.name}() got an unexpected keyword argument '{next(iter(kwargs))}'")
        return vars

    def call_func(self, f, args, kwargs):
        hook = self.hooks.get(f.qualname)
        if hook is not None:
            r = hook(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        spy = self.spies.get(f.qualname)
        if spy is not None:
            spy(self, f, args, kwargs)
        if f.attrs.get('lru_cache') is not None:
            self.event('lru_call', func=f, args=args)
            return self.lru_call(f, args, kwargs)
        return self.call_func_raw(f, args, kwargs)

    def lru_call(self, f, args, kwargs):
        """memoised function: the same object is handed out for equal arguments"""
        try:
            key = (tuple(self.hkey(a) for a in args), tuple(sorted((k, self.hkey(v)) for k, v in kwargs.items())))
        except Unsupported:
            key = None
        if any(isinstance(self.res(a), VRef) and isinstance(self.deref(self.res(a)), HList) for a in args) or \
                any(isinstance(self.res(a), VArr) for a in args):
            self.raise_('TypeError', 'unhashable type')
        cid = f.attrs['lru_cache']
        o = self.st.heap.get(cid) or HDict({})
        if isinstance(o, HPhi):
            o = self.deref(cid)
        if key is not None and key in o.d:
            return o.d[key][1]
        r = self.call_func_raw(f, args, kwargs)
        if key is not None:
            o = self.deref(cid) if cid in self.st.heap else HDict({})
            d = dict(o.d)
            d[key] = (None, r)
            self.st.heap[cid] = HDict(d)
        return r

    def call_func_raw(self, f, args, kwargs):
        self.depth += 1
        if self.depth > MAX_DEPTH:
            raise Unsupported('recursion depth')
        vars = self.bind(f, args, kwargs)
        self.cov_funcs[f.qualname] = self.cov_funcs.get(f.qualname, 0) + 1
        save, savenode = self.cur, self.curnode
        depth = self.depth
        parent = f.frame
        fid = self.alloc(HFrame(vars, parent, f.module, 'func', f))
        self.cur = fid
        self.curfn.append(f.qualname)
        nfn = len(self.curfn)
        ret = Ret()
        self.rets.append(ret)
        nret = len(self.rets)
        loops, self.loops = self.loops, []
        ys = None
        if f.isgen:
            ys = YieldList()
            ys.pc = self.st.pc
            self.yields.append(ys)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body)
                ret.out.append((self.st, v))
            else:
                try:
                    self.exec_block(f.node.body)
                    ret.out.append((self.st, None))
                except PathDead:
                    pass
        finally:
            del self.rets[nret - 1:]
            self.loops = loops
            self.cur, self.curnode = save, savenode
            del self.curfn[nfn - 1:]
            self.depth = depth - 1
            if ys is not None and self.yields and self.yields[-1] is ys:
                self.yields.pop()
        if not ret.out:
            raise PathDead()
        if not f.scope.inner:
            for st, _ in ret.out:
                st.heap.pop(fid, None)
        v = self.join(ret.out)
        if ys is not None:
            g = self.mklist(ys, 'iter')
            self.genret[g.id] = v
            return g
        return v

    # ------------------------------------------------------------------ classes and attributes
    def class_lookup(self, cls, name, after=None):
        """attribute through the MRO: (value, owner) or (None, None)"""
        mro = cls.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if c.ns is not None:
                fr = self.deref(c.ns)
                if name in fr.vars:
                    v = self.res(fr.vars[name])
                    if v is not UNDEF:
                        return v, c
            elif name in c.nmethods:
                return c.nmethods[name], c
        return None, None

    def has_method(self, v, name):
        return self.class_lookup(self.type_of(v), name)[1] is not None

    def find_special(self, v, name):
        r, c = self.class_lookup(self.type_of(v), name)
        return r if c is not None else None

    def instantiate(self, cls, args, kwargs):
        if cls.construct is not None:
            return cls.construct(self, cls, args, kwargs)
        # modelled base with its own construction protocol (exceptions, pydantic models, enums ...)
        for b in cls.mro:
            if 'construct_sub' in b.meta:
                return b.meta['construct_sub'](self, cls, args, kwargs)
        ab = self.abstract_names(cls)
        if ab:
            self.raise_('TypeError', f"Can't instantiate abstract class {cls.name} with abstract methods {', '.join(sorted(ab))}")
        nw, owner = self.class_lookup(cls, '__new__')
        if owner is not None and owner.ns is not None:
            f = nw.func if isinstance(nw, VStatic) else nw
            obj = self.call(f, [cls] + list(args), kwargs)
        else:
            obj = self.new(HInst(cls, {}))
        init, owner = self.class_lookup(cls, '__init__')
        if owner is None or owner.ns is None:
            if args or kwargs:
                self.raise_('TypeError', f'{cls.name}() takes no arguments')
            return obj
        self.call(init, [obj] + list(args), kwargs)
        return obj

    def abstract_names(self, cls):
        if not any(c.name == 'ABC' and c.ns is None for c in cls.mro):
            return set()
        names = set()
        for c in cls.mro:
            if c.ns is not None:
                for k, v in self.deref(c.ns).vars.items():
                    if self.is_abstract(v):
                        names.add(k)
        return {n for n in names if self.is_abstract(self.class_lookup(cls, n)[0])}

    def is_abstract(self, v):
        if isinstance(v, VFunc):
            return v.abstract
        if isinstance(v, VProperty):
            return v.abstract or any(isinstance(f, VFunc) and f.abstract for f in (v.fget, v.fset))
        if isinstance(v, (VStatic, VClassMethod)):
            return self.is_abstract(v.func)
        return False

    def type_of(self, v):
        return self.ext.type_of(v)

    def getattr(self, o, name, default=NotImplemented):
        o = self.res(o)
        r = self._getattr(o, name)
        if r is NotImplemented:
            ex = attrs.exists(self, o, name)
            if ex is not False:
                raise Unsupported(f"attribute '{name}' of '{self.type_of(o).name}'", self.where())
            if default is not NotImplemented:
                return default
            self.raise_('AttributeError', f"'{self.type_of(o).name}' object has no attribute '{name}'")
        return self.res(r)

    def _getattr(self, o, name):
        if name == '__class__' and not isinstance(o, (VRef, VClass)):
            return self.type_of(o)
        if isinstance(o, VRef):
            ob = self.deref(o)
            if isinstance(ob, HInst):
                if name == '__class__':
                    return ob.cls
                if name == '__dict__':
                    return self.mkdict(list(ob.attrs.items()))
                gb = self.class_lookup(ob.cls, '__getattribute__')[1]
                if gb is not None and gb.ns is not None:
                    raise Unsupported('user-defined __getattribute__', self.where())
                cv, owner = self.class_lookup(ob.cls, name)
                if isinstance(cv, VProperty) and cv.cached is None:
                    return self.call(cv.fget, [o], {})
                if owner is not None and self.descr(cv, '__get__') is not None and self.descr(cv, '__set__') is not None:
                    return self.bind_attr(cv, o, ob.cls)
                if name in ob.attrs:
                    v = self.res(ob.attrs[name])
                    if v is not UNDEF:
                        return v
                if isinstance(cv, VProperty) and cv.cached is not None:
                    v = self.call(cv.fget, [o], {})
                    ob = self.deref(o)
                    self.put(o, HInst(ob.cls, {**ob.attrs, name: v}))
                    return v
                if owner is not None:
                    return self.bind_attr(cv, o, ob.cls)
                ga, gown = self.class_lookup(ob.cls, '__getattr__')
                if gown is not None:
                    return self.call(ga, [o, name], {})
                return NotImplemented
        if isinstance(o, VClass):
            return self.class_getattr(o, name)
        if isinstance(o, VSuper):
            s = o.self_
            start = s if isinstance(s, VClass) else self.type_of(s)
            cv, owner = self.class_lookup(start, name, after=o.cls)
            if owner is None:
                return NotImplemented
            if isinstance(cv, VProperty):
                return self.call(cv.fget, [s], {})
            if isinstance(s, VClass):
                if isinstance(cv, VClassMethod):
                    return VBound(cv.func, s)
                if isinstance(cv, VStatic):
                    return cv.func
                return cv
            return self.bind_attr(cv, s, start)
        if isinstance(o, VModule):
            if name == '__name__':
                return o.name
            v = self.module_attr(o, name)
            return NotImplemented if v is None else v
        if isinstance(o, VExtModule):
            v = o.get(name)
            return NotImplemented if v is None else None if v is NONE else v
        if isinstance(o, (VFunc, VBuiltin)):
            if name in ('__name__', '__qualname__'):
                w = o.attrs.get('__wrapped__')
                return w.name if isinstance(w, (VFunc, VBuiltin)) else o.name
            if name in o.attrs:
                return o.attrs[name]
            if name == '__doc__':
                return VOpaque('str')
            if name == '__get__':
                return VBuiltin('__get__', lambda it, a, k: VBound(o, a[0]))
            if isinstance(o, VBuiltin) and o.attrs.get('unknown'):
                return self.ext.mods.unknown(f'{o.name}.{name}')
            return NotImplemented
        if isinstance(o, VBound):
            if name == '__self__':
                return o.self_
            if name == '__func__':
                return o.func
            return self._getattr(o.func, name) if isinstance(o.func, (VFunc, VBuiltin)) else NotImplemented
        if isinstance(o, VSlice) and name in ('start', 'stop', 'step'):
            return {'start': o.lo, 'stop': o.hi, 'step': o.st}[name]
        if isinstance(o, VProperty):
            if name == 'setter':
                return VBuiltin('setter', lambda it, a, k: VProperty(o.fget, a[0], o.fdel, o.abstract))
            if name == 'getter':
                return VBuiltin('getter', lambda it, a, k: VProperty(a[0], o.fset, o.fdel, o.abstract))
            if name == 'deleter':
                return VBuiltin('deleter', lambda it, a, k: VProperty(o.fget, o.fset, a[0], o.abstract))
            if name == 'fget':
                return o.fget
            if name == 'fset':
                return o.fset
            return NotImplemented
        return self.ext.getattr_value(o, name)

    def bind_attr(self, cv, o, cls):
        if isinstance(cv, (VFunc,)):
            return VBound(cv, o)
        if isinstance(cv, VBuiltin) and cv.attrs.get('method'):
            return VBound(cv, o)
        if isinstance(cv, VClassMethod):
            return VBound(cv.func, cls)
        if isinstance(cv, VStatic):
            return cv.func
        if isinstance(cv, VProperty):
            return self.call(cv.fget, [o], {})
        g = self.descr(cv, '__get__')
        if g is not None:
            return self.call(g, [cv, o, cls], {})
        return cv

    def descr(self, cv, m):
        """the user-defined descriptor method m of a class attribute, if it has one"""
        cv = self.res(cv)
        if isinstance(cv, VRef) and isinstance(self.deref(cv), HInst):
            return self.find_special(cv, m)
        return None

    def class_getattr(self, c, name):
        if name == '__name__' or name == '__qualname__':
            return c.name
        if name == '__mro__':
            return VTuple(c.mro)
        if name == '__class__':
            return self.builtins['type']
        if name == '__bases__':
            return VTuple(c.bases)
        cv, owner = self.class_lookup(c, name)
        if owner is None:
            if name == '__init__':
                return VBuiltin('object.__init__', lambda it, a, k: None)
            r = self.ext.class_attr(c, name)
            return r
        if isinstance(cv, VClassMethod):
            return VBound(cv.func, c)
        if isinstance(cv, VStatic):
            return cv.func
        g = self.descr(cv, '__get__')
        if g is not None:
            return self.call(g, [cv, None, c], {})
        return cv

    def setattr(self, o, name, v):
        o = self.res(o)
        if isinstance(o, VRef):
            ob = self.deref(o)
            if isinstance(ob, HInst):
                sa, owner = self.class_lookup(ob.cls, '__setattr__')
                if owner is not None and owner.ns is not None:
                    self.call(sa, [o, name, v], {})
                    return
                return self.default_setattr(o, name, v)
        if isinstance(o, VClass) and o.ns is not None:
            self.event('classwrite', cls=o, name=name)
            return self.setvar_in(o.ns, name, v)
        if isinstance(o, VModule):
            self.event('modwrite', mod=o, name=name)
            return self.setvar_in(o.frame, name, v)
        if isinstance(o, VSuper):
            return self.default_setattr(o.self_, name, v)
        if isinstance(o, (VFunc, VBuiltin)):
            o.attrs[name] = v
            return
        if isinstance(o, VArr) and name == 'shape' and not o.jx and self.st.pc is TRUE:
            # (the array object is shared by the states of both branches, so only where no branch is open)
            dims = [const_int(self.res(x)) for x in self.iterate(v)] if not isinstance(self.res(v), VNum) else [const_int(self.res(v))]
            if None not in dims:
                if dims.count(-1) == 1:
                    n = 1
                    for d in dims:
                        n *= d if d != -1 else 1
                    dims[dims.index(-1)] = len(o.idx) // n if n else 0
                n = 1
                for d in dims:
                    n *= d
                if n != len(o.idx) or min(dims, default=0) < 0:
                    self.raise_('ValueError', 'cannot reshape array')
                self.event('write', obj=o.buf, idx=())
                o.shape = tuple(dims)
                return
        if isinstance(o, VArr) and name in ('shape', 'flags'):
            raise Unsupported('in-place array attribute', self.where())
        self.raise_('AttributeError', f"'{self.type_of(o).name}' object has no attribute '{name}'")

    def default_setattr(self, o, name, v, force=False):
        ob = self.deref(o)
        cv, owner = self.class_lookup(ob.cls, name)
        if isinstance(cv, VProperty) and cv.cached is None:
            if cv.fset is None:
                self.raise_('AttributeError', f"property '{name}' of '{ob.cls.name}' object has no setter")
            self.call(cv.fset, [o, v], {})
            return
        ds = self.descr(cv, '__set__') if owner is not None else None
        if ds is not None:
            self.call(ds, [cv, o, v], {})
            return
        if 'config' in ob.cls.meta and not force:
            v = self.ext.mods.pyd.assign(ob.cls, name, v)
        if ob.cls.meta.get('frozen') and not force:
            self.raise_(self.ext.mods.frozen_error(), 'cannot assign to field')
        if all(c.ns is not None and '__slots__' in self.deref(c.ns).vars for c in ob.cls.mro if c.name not in ('object', 'Generic')):
            slots = set()
            for c in ob.cls.mro:
                if c.ns is not None:
                    sl = self.res(self.deref(c.ns).vars['__slots__'])
                    slots |= {sl} if isinstance(sl, str) else {self.res(x) for x in self.iterate(sl)}
            if name not in slots and '__dict__' not in slots:
                self.raise_('AttributeError', f"'{ob.cls.name}' object has no attribute '{name}'")
        d = dict(ob.attrs)
        d[name] = v
        self.put(o, HInst(ob.cls, d))
        self.event('attrwrite', obj=o.id, name=name)

    # ------------------------------------------------------------------ delegation to the library model
    def truth(self, v):
        return self.ext.truth(self.res(v))

    def iterate(self, v):
        return self.ext.iterate(self.res(v))

    def binop(self, op, a, b):
        return self.ext.binop(op, self.res(a), self.res(b))

    def unop(self, op, a):
        return self.ext.unop(op, self.res(a))

    def compare(self, op, a, b):
        return self.ext.compare(op, self.res(a), self.res(b))

    def getitem(self, o, k):
        return self.ext.getitem(self.res(o), self.res(k))

    def setitem(self, o, k, v):
        return self.ext.setitem(self.res(o), self.res(k), self.res(v))

    def delitem(self, o, k):
        return self.ext.delitem(self.res(o), self.res(k))

    def isinstance(self, v, cls):
        return self.ext.isinstance(self.res(v), self.res(cls))

    def hkey(self, v):
        v = self.res(v)
        if v is None or isinstance(v, str):
            return ('c', v)
        if isinstance(v, VBool):
            if v.c.v is None:
                return ('n', 1 if v.c is TRUE else 0)
            raise NeedSplit(v.c)
        if isinstance(v, VNum):
            c = v.t.const()
            return ('n', c) if c is not None else ('s', v.t)
        if isinstance(v, VTuple):
            return ('t',) + tuple(self.hkey(x) for x in v.items)
        if isinstance(v, VClass):
            return ('k', id(v))
        if isinstance(v, VRef):
            o = self.deref(v)
            if isinstance(o, (HList, HDict)) and getattr(o, 'kind', '') != 'frozenset':
                self.raise_('TypeError', 'unhashable type')
            if isinstance(o, HInst):
                e, owner = self.class_lookup(o.cls, '__eq__')
                h, howner = self.class_lookup(o.cls, '__hash__')
                if owner is not None and owner.ns is not None or howner is not None and howner.ns is not None:
                    raise Unsupported(f'hash of a {o.cls.name} object', self.where())
            return ('r', v.id)
        if isinstance(v, (VFunc, VBuiltin, VNative, VExtModule, VModule)):
            return ('o', id(v))
        if isinstance(v, VBound):
            return ('b', self.hkey(v.func), self.hkey(v.self_))
        if isinstance(v, VArr):
            self.raise_('TypeError', 'unhashable type: numpy.ndarray')
        raise Unsupported(f'hash of {v!r}')


class YieldList(list):
    pc = None


class Merger:
    """join of two states of disjoint path conditions"""

    def __init__(self, it, s1, s2, c, pc):
        self.it, self.s1, self.s2, self.c, self.pc = it, s1, s2, c, pc
        self.memo = {}
        self.heap = None
        self.busy = set()

    def run(self, v1, v2):
        h1, h2 = self.s1.heap, self.s2.heap
        heap = dict(h1)
        self.heap = heap
        diff = []
        for k, o2 in h2.items():
            o1 = h1.get(k)
            if o1 is None:
                heap[k] = o2
            elif o1 is not o2:
                diff.append(k)
        for k in diff:
            heap[k] = self.obj(h1[k], h2[k])
        v = self.val(v1, v2)
        return State(heap, self.pc), v

    def obj(self, a, b):
        r = self._obj(a, b)
        return HPhi(self.c, a, b) if r is None else r

    def _obj(self, a, b):
        if type(a) is not type(b) or isinstance(a, HPhi):
            return None
        if isinstance(a, HFrame):
            if a.vars is b.vars:
                return a
            d = {}
            for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
                d[k] = self.val(a.vars.get(k, UNDEF), b.vars.get(k, UNDEF))
            return a.with_vars(d)
        if isinstance(a, HInst):
            if a.cls is not b.cls:
                return None
            d = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                d[k] = self.val(a.attrs.get(k, UNDEF), b.attrs.get(k, UNDEF))
            return HInst(a.cls, d)
        if isinstance(a, HList):
            if a.kind != b.kind or len(a.items) != len(b.items):
                return None
            return HList([self.val(x, y) for x, y in zip(a.items, b.items)], a.kind)
        if isinstance(a, HDict):
            if list(a.d) != list(b.d):
                return None
            return HDict({k: (a.d[k][0], self.val(a.d[k][1], b.d[k][1])) for k in a.d}, a.kind)
        if isinstance(a, HBuf):
            if len(a.e) != len(b.e):
                return None
            out = []
            for x, y in zip(a.e, b.e):
                z = self.cell(x, y)
                if z is None:
                    return None
                out.append(z)
            return HBuf(out)
        return None

    def cell(self, x, y):
        if x is y:
            return x
        if isinstance(x, Term) and isinstance(y, Term):
            return x if x == y else tm.ite(self.c, x, y)
        if isinstance(x, tm.Cond) and isinstance(y, tm.Cond):
            return tm.c_ite(self.c, x, y)
        return None

    def val(self, a, b):
        if a is b:
            return a
        if isinstance(a, VNum) and isinstance(b, VNum):
            if a.t == b.t and a.k == b.k and a.np == b.np and a.jx == b.jx:
                return a
            k = a.k if a.k == b.k else 'float'
            return VNum(tm.ite(self.c, a.t, b.t), k, a.np if a.np == b.np else (a.np or b.np), a.jx or b.jx)
        if isinstance(a, VBool) and isinstance(b, VBool):
            return VBool(tm.c_ite(self.c, a.c, b.c), a.np and b.np, a.jx or b.jx)
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, VTuple) and isinstance(b, VTuple) and len(a.items) == len(b.items) and a.fields == b.fields:
            return VTuple([self.val(x, y) for x, y in zip(a.items, b.items)], a.fields, a.cls)
        if isinstance(a, VRef) and isinstance(b, VRef):
            if a.id == b.id:
                return a
            h1, h2 = self.s1.heap, self.s2.heap
            if a.id not in h2 and b.id not in h1 and a.id in h1 and b.id in h2:
                k = (a.id, b.id)
                if k in self.memo:
                    return VRef(self.memo[k])
                if k not in self.busy:
                    self.busy.add(k)
                    self.it.nid += 1
                    nid = self.it.nid
                    self.memo[k] = nid
                    o = self._obj(h1[a.id], h2[b.id])
                    if o is not None:
                        self.heap[nid] = o
                        return VRef(nid)
                    self.heap[nid] = HPhi(self.c, h1[a.id], h2[b.id])
                    return VRef(nid)
            return VPhi(self.c, a, b)
        if isinstance(a, VArr) and isinstance(b, VArr):
            if a.key() == b.key():
                return a
            h1, h2 = self.s1.heap, self.s2.heap
            if a.shape == b.shape and a.jx == b.jx and a.matrix == b.matrix and a.buf not in h2 and b.buf not in h1 \
                    and a.buf in h1 and b.buf in h2 and a.idx == b.idx:
                dt = a.dt
                if a.dt != b.dt:
                    if 'bool' in (a.dt, b.dt):
                        return VPhi(self.c, a, b)
                    if 'int64' in (a.dt, b.dt):
                        return VPhi(self.c, a, b)
                    dt = 'float64'
                k = (a.buf, b.buf)
                if k not in self.memo:
                    o = self._obj(h1[a.buf], h2[b.buf])
                    if o is None:
                        return VPhi(self.c, a, b)
                    self.it.nid += 1
                    self.memo[k] = self.it.nid
                    self.heap[self.it.nid] = o
                return VArr(self.memo[k], a.idx, a.shape, dt, a.jx, a.matrix)
            return VPhi(self.c, a, b)
        if isinstance(a, VBound) and isinstance(b, VBound):
            f = self.val(a.func, b.func)
            if not isinstance(f, VPhi):
                s = self.val(a.self_, b.self_)
                if not isinstance(s, VPhi):
                    return VBound(f, s)
        if isinstance(a, VFunc) and isinstance(b, VFunc) and a.node is b.node and a.frame == b.frame:
            return a
        if isinstance(a, VNative) and isinstance(b, VNative) and a.kind == b.kind and set(a.d) == set(b.d):
            d = {}
            for k in a.d:
                r = self.nat(a.d[k], b.d[k])
                if r is NotImplemented:
                    break
                d[k] = r
            else:
                return VNative(a.kind, **d)
        if isinstance(a, VOpaque) and isinstance(b, VOpaque) and a.typ == b.typ:
            return a
        if isinstance(a, VPhi) and isinstance(b, VPhi) and a.c is b.c and a.a is b.a and a.b is b.b:
            return a
        return VPhi(self.c, a, b)

    def nat(self, x, y):
        if x is y:
            return x
        if isinstance(x, Term) and isinstance(y, Term):
            return tm.ite(self.c, x, y)
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            out = [self.nat(p, q) for p, q in zip(x, y)]
            return NotImplemented if any(o is NotImplemented for o in out) else tuple(out)
        try:
            if x == y:
                return x
        except Exception:
            pass
        if isinstance(x, (VNum, VBool, VTuple, VArr, VRef)) and type(x) is type(y):
            r = self.val(x, y)
            return NotImplemented if isinstance(r, VPhi) else r
        return NotImplemented
